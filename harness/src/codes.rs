//! `xterm_from_code!` for every literal code (a macro cannot be handed its literals by another macro).
use colorz::{xterm_from_code, Color, ComptimeColor};
fn erase(c: impl Into<Color>) -> Color {
    c.into()
}
/// as a type and as an expression
#[rustfmt::skip]
pub const CODES: [(Option<Color>, fn() -> Color); 256] = [
    (<xterm_from_code!(0) as ComptimeColor>::VALUE, || erase(xterm_from_code!(0))),
    (<xterm_from_code!(1) as ComptimeColor>::VALUE, || erase(xterm_from_code!(1))),
    (<xterm_from_code!(2) as ComptimeColor>::VALUE, || erase(xterm_from_code!(2))),
    (<xterm_from_code!(3) as ComptimeColor>::VALUE, || erase(xterm_from_code!(3))),
    (<xterm_from_code!(4) as ComptimeColor>::VALUE, || erase(xterm_from_code!(4))),
    (<xterm_from_code!(5) as ComptimeColor>::VALUE, || erase(xterm_from_code!(5))),
    (<xterm_from_code!(6) as ComptimeColor>::VALUE, || erase(xterm_from_code!(6))),
    (<xterm_from_code!(7) as ComptimeColor>::VALUE, || erase(xterm_from_code!(7))),
    (<xterm_from_code!(8) as ComptimeColor>::VALUE, || erase(xterm_from_code!(8))),
    (<xterm_from_code!(9) as ComptimeColor>::VALUE, || erase(xterm_from_code!(9))),
    (<xterm_from_code!(10) as ComptimeColor>::VALUE, || erase(xterm_from_code!(10))),
    (<xterm_from_code!(11) as ComptimeColor>::VALUE, || erase(xterm_from_code!(11))),
    (<xterm_from_code!(12) as ComptimeColor>::VALUE, || erase(xterm_from_code!(12))),
    (<xterm_from_code!(13) as ComptimeColor>::VALUE, || erase(xterm_from_code!(13))),
    (<xterm_from_code!(14) as ComptimeColor>::VALUE, || erase(xterm_from_code!(14))),
    (<xterm_from_code!(15) as ComptimeColor>::VALUE, || erase(xterm_from_code!(15))),
    (<xterm_from_code!(16) as ComptimeColor>::VALUE, || erase(xterm_from_code!(16))),
    (<xterm_from_code!(17) as ComptimeColor>::VALUE, || erase(xterm_from_code!(17))),
    (<xterm_from_code!(18) as ComptimeColor>::VALUE, || erase(xterm_from_code!(18))),
    (<xterm_from_code!(19) as ComptimeColor>::VALUE, || erase(xterm_from_code!(19))),
    (<xterm_from_code!(20) as ComptimeColor>::VALUE, || erase(xterm_from_code!(20))),
    (<xterm_from_code!(21) as ComptimeColor>::VALUE, || erase(xterm_from_code!(21))),
    (<xterm_from_code!(22) as ComptimeColor>::VALUE, || erase(xterm_from_code!(22))),
    (<xterm_from_code!(23) as ComptimeColor>::VALUE, || erase(xterm_from_code!(23))),
    (<xterm_from_code!(24) as ComptimeColor>::VALUE, || erase(xterm_from_code!(24))),
    (<xterm_from_code!(25) as ComptimeColor>::VALUE, || erase(xterm_from_code!(25))),
    (<xterm_from_code!(26) as ComptimeColor>::VALUE, || erase(xterm_from_code!(26))),
    (<xterm_from_code!(27) as ComptimeColor>::VALUE, || erase(xterm_from_code!(27))),
    (<xterm_from_code!(28) as ComptimeColor>::VALUE, || erase(xterm_from_code!(28))),
    (<xterm_from_code!(29) as ComptimeColor>::VALUE, || erase(xterm_from_code!(29))),
    (<xterm_from_code!(30) as ComptimeColor>::VALUE, || erase(xterm_from_code!(30))),
    (<xterm_from_code!(31) as ComptimeColor>::VALUE, || erase(xterm_from_code!(31))),
    (<xterm_from_code!(32) as ComptimeColor>::VALUE, || erase(xterm_from_code!(32))),
    (<xterm_from_code!(33) as ComptimeColor>::VALUE, || erase(xterm_from_code!(33))),
    (<xterm_from_code!(34) as ComptimeColor>::VALUE, || erase(xterm_from_code!(34))),
    (<xterm_from_code!(35) as ComptimeColor>::VALUE, || erase(xterm_from_code!(35))),
    (<xterm_from_code!(36) as ComptimeColor>::VALUE, || erase(xterm_from_code!(36))),
    (<xterm_from_code!(37) as ComptimeColor>::VALUE, || erase(xterm_from_code!(37))),
    (<xterm_from_code!(38) as ComptimeColor>::VALUE, || erase(xterm_from_code!(38))),
    (<xterm_from_code!(39) as ComptimeColor>::VALUE, || erase(xterm_from_code!(39))),
    (<xterm_from_code!(40) as ComptimeColor>::VALUE, || erase(xterm_from_code!(40))),
    (<xterm_from_code!(41) as ComptimeColor>::VALUE, || erase(xterm_from_code!(41))),
    (<xterm_from_code!(42) as ComptimeColor>::VALUE, || erase(xterm_from_code!(42))),
    (<xterm_from_code!(43) as ComptimeColor>::VALUE, || erase(xterm_from_code!(43))),
    (<xterm_from_code!(44) as ComptimeColor>::VALUE, || erase(xterm_from_code!(44))),
    (<xterm_from_code!(45) as ComptimeColor>::VALUE, || erase(xterm_from_code!(45))),
    (<xterm_from_code!(46) as ComptimeColor>::VALUE, || erase(xterm_from_code!(46))),
    (<xterm_from_code!(47) as ComptimeColor>::VALUE, || erase(xterm_from_code!(47))),
    (<xterm_from_code!(48) as ComptimeColor>::VALUE, || erase(xterm_from_code!(48))),
    (<xterm_from_code!(49) as ComptimeColor>::VALUE, || erase(xterm_from_code!(49))),
    (<xterm_from_code!(50) as ComptimeColor>::VALUE, || erase(xterm_from_code!(50))),
    (<xterm_from_code!(51) as ComptimeColor>::VALUE, || erase(xterm_from_code!(51))),
    (<xterm_from_code!(52) as ComptimeColor>::VALUE, || erase(xterm_from_code!(52))),
    (<xterm_from_code!(53) as ComptimeColor>::VALUE, || erase(xterm_from_code!(53))),
    (<xterm_from_code!(54) as ComptimeColor>::VALUE, || erase(xterm_from_code!(54))),
    (<xterm_from_code!(55) as ComptimeColor>::VALUE, || erase(xterm_from_code!(55))),
    (<xterm_from_code!(56) as ComptimeColor>::VALUE, || erase(xterm_from_code!(56))),
    (<xterm_from_code!(57) as ComptimeColor>::VALUE, || erase(xterm_from_code!(57))),
    (<xterm_from_code!(58) as ComptimeColor>::VALUE, || erase(xterm_from_code!(58))),
    (<xterm_from_code!(59) as ComptimeColor>::VALUE, || erase(xterm_from_code!(59))),
    (<xterm_from_code!(60) as ComptimeColor>::VALUE, || erase(xterm_from_code!(60))),
    (<xterm_from_code!(61) as ComptimeColor>::VALUE, || erase(xterm_from_code!(61))),
    (<xterm_from_code!(62) as ComptimeColor>::VALUE, || erase(xterm_from_code!(62))),
    (<xterm_from_code!(63) as ComptimeColor>::VALUE, || erase(xterm_from_code!(63))),
    (<xterm_from_code!(64) as ComptimeColor>::VALUE, || erase(xterm_from_code!(64))),
    (<xterm_from_code!(65) as ComptimeColor>::VALUE, || erase(xterm_from_code!(65))),
    (<xterm_from_code!(66) as ComptimeColor>::VALUE, || erase(xterm_from_code!(66))),
    (<xterm_from_code!(67) as ComptimeColor>::VALUE, || erase(xterm_from_code!(67))),
    (<xterm_from_code!(68) as ComptimeColor>::VALUE, || erase(xterm_from_code!(68))),
    (<xterm_from_code!(69) as ComptimeColor>::VALUE, || erase(xterm_from_code!(69))),
    (<xterm_from_code!(70) as ComptimeColor>::VALUE, || erase(xterm_from_code!(70))),
    (<xterm_from_code!(71) as ComptimeColor>::VALUE, || erase(xterm_from_code!(71))),
    (<xterm_from_code!(72) as ComptimeColor>::VALUE, || erase(xterm_from_code!(72))),
    (<xterm_from_code!(73) as ComptimeColor>::VALUE, || erase(xterm_from_code!(73))),
    (<xterm_from_code!(74) as ComptimeColor>::VALUE, || erase(xterm_from_code!(74))),
    (<xterm_from_code!(75) as ComptimeColor>::VALUE, || erase(xterm_from_code!(75))),
    (<xterm_from_code!(76) as ComptimeColor>::VALUE, || erase(xterm_from_code!(76))),
    (<xterm_from_code!(77) as ComptimeColor>::VALUE, || erase(xterm_from_code!(77))),
    (<xterm_from_code!(78) as ComptimeColor>::VALUE, || erase(xterm_from_code!(78))),
    (<xterm_from_code!(79) as ComptimeColor>::VALUE, || erase(xterm_from_code!(79))),
    (<xterm_from_code!(80) as ComptimeColor>::VALUE, || erase(xterm_from_code!(80))),
    (<xterm_from_code!(81) as ComptimeColor>::VALUE, || erase(xterm_from_code!(81))),
    (<xterm_from_code!(82) as ComptimeColor>::VALUE, || erase(xterm_from_code!(82))),
    (<xterm_from_code!(83) as ComptimeColor>::VALUE, || erase(xterm_from_code!(83))),
    (<xterm_from_code!(84) as ComptimeColor>::VALUE, || erase(xterm_from_code!(84))),
    (<xterm_from_code!(85) as ComptimeColor>::VALUE, || erase(xterm_from_code!(85))),
    (<xterm_from_code!(86) as ComptimeColor>::VALUE, || erase(xterm_from_code!(86))),
    (<xterm_from_code!(87) as ComptimeColor>::VALUE, || erase(xterm_from_code!(87))),
    (<xterm_from_code!(88) as ComptimeColor>::VALUE, || erase(xterm_from_code!(88))),
    (<xterm_from_code!(89) as ComptimeColor>::VALUE, || erase(xterm_from_code!(89))),
    (<xterm_from_code!(90) as ComptimeColor>::VALUE, || erase(xterm_from_code!(90))),
    (<xterm_from_code!(91) as ComptimeColor>::VALUE, || erase(xterm_from_code!(91))),
    (<xterm_from_code!(92) as ComptimeColor>::VALUE, || erase(xterm_from_code!(92))),
    (<xterm_from_code!(93) as ComptimeColor>::VALUE, || erase(xterm_from_code!(93))),
    (<xterm_from_code!(94) as ComptimeColor>::VALUE, || erase(xterm_from_code!(94))),
    (<xterm_from_code!(95) as ComptimeColor>::VALUE, || erase(xterm_from_code!(95))),
    (<xterm_from_code!(96) as ComptimeColor>::VALUE, || erase(xterm_from_code!(96))),
    (<xterm_from_code!(97) as ComptimeColor>::VALUE, || erase(xterm_from_code!(97))),
    (<xterm_from_code!(98) as ComptimeColor>::VALUE, || erase(xterm_from_code!(98))),
    (<xterm_from_code!(99) as ComptimeColor>::VALUE, || erase(xterm_from_code!(99))),
    (<xterm_from_code!(100) as ComptimeColor>::VALUE, || erase(xterm_from_code!(100))),
    (<xterm_from_code!(101) as ComptimeColor>::VALUE, || erase(xterm_from_code!(101))),
    (<xterm_from_code!(102) as ComptimeColor>::VALUE, || erase(xterm_from_code!(102))),
    (<xterm_from_code!(103) as ComptimeColor>::VALUE, || erase(xterm_from_code!(103))),
    (<xterm_from_code!(104) as ComptimeColor>::VALUE, || erase(xterm_from_code!(104))),
    (<xterm_from_code!(105) as ComptimeColor>::VALUE, || erase(xterm_from_code!(105))),
    (<xterm_from_code!(106) as ComptimeColor>::VALUE, || erase(xterm_from_code!(106))),
    (<xterm_from_code!(107) as ComptimeColor>::VALUE, || erase(xterm_from_code!(107))),
    (<xterm_from_code!(108) as ComptimeColor>::VALUE, || erase(xterm_from_code!(108))),
    (<xterm_from_code!(109) as ComptimeColor>::VALUE, || erase(xterm_from_code!(109))),
    (<xterm_from_code!(110) as ComptimeColor>::VALUE, || erase(xterm_from_code!(110))),
    (<xterm_from_code!(111) as ComptimeColor>::VALUE, || erase(xterm_from_code!(111))),
    (<xterm_from_code!(112) as ComptimeColor>::VALUE, || erase(xterm_from_code!(112))),
    (<xterm_from_code!(113) as ComptimeColor>::VALUE, || erase(xterm_from_code!(113))),
    (<xterm_from_code!(114) as ComptimeColor>::VALUE, || erase(xterm_from_code!(114))),
    (<xterm_from_code!(115) as ComptimeColor>::VALUE, || erase(xterm_from_code!(115))),
    (<xterm_from_code!(116) as ComptimeColor>::VALUE, || erase(xterm_from_code!(116))),
    (<xterm_from_code!(117) as ComptimeColor>::VALUE, || erase(xterm_from_code!(117))),
    (<xterm_from_code!(118) as ComptimeColor>::VALUE, || erase(xterm_from_code!(118))),
    (<xterm_from_code!(119) as ComptimeColor>::VALUE, || erase(xterm_from_code!(119))),
    (<xterm_from_code!(120) as ComptimeColor>::VALUE, || erase(xterm_from_code!(120))),
    (<xterm_from_code!(121) as ComptimeColor>::VALUE, || erase(xterm_from_code!(121))),
    (<xterm_from_code!(122) as ComptimeColor>::VALUE, || erase(xterm_from_code!(122))),
    (<xterm_from_code!(123) as ComptimeColor>::VALUE, || erase(xterm_from_code!(123))),
    (<xterm_from_code!(124) as ComptimeColor>::VALUE, || erase(xterm_from_code!(124))),
    (<xterm_from_code!(125) as ComptimeColor>::VALUE, || erase(xterm_from_code!(125))),
    (<xterm_from_code!(126) as ComptimeColor>::VALUE, || erase(xterm_from_code!(126))),
    (<xterm_from_code!(127) as ComptimeColor>::VALUE, || erase(xterm_from_code!(127))),
    (<xterm_from_code!(128) as ComptimeColor>::VALUE, || erase(xterm_from_code!(128))),
    (<xterm_from_code!(129) as ComptimeColor>::VALUE, || erase(xterm_from_code!(129))),
    (<xterm_from_code!(130) as ComptimeColor>::VALUE, || erase(xterm_from_code!(130))),
    (<xterm_from_code!(131) as ComptimeColor>::VALUE, || erase(xterm_from_code!(131))),
    (<xterm_from_code!(132) as ComptimeColor>::VALUE, || erase(xterm_from_code!(132))),
    (<xterm_from_code!(133) as ComptimeColor>::VALUE, || erase(xterm_from_code!(133))),
    (<xterm_from_code!(134) as ComptimeColor>::VALUE, || erase(xterm_from_code!(134))),
    (<xterm_from_code!(135) as ComptimeColor>::VALUE, || erase(xterm_from_code!(135))),
    (<xterm_from_code!(136) as ComptimeColor>::VALUE, || erase(xterm_from_code!(136))),
    (<xterm_from_code!(137) as ComptimeColor>::VALUE, || erase(xterm_from_code!(137))),
    (<xterm_from_code!(138) as ComptimeColor>::VALUE, || erase(xterm_from_code!(138))),
    (<xterm_from_code!(139) as ComptimeColor>::VALUE, || erase(xterm_from_code!(139))),
    (<xterm_from_code!(140) as ComptimeColor>::VALUE, || erase(xterm_from_code!(140))),
    (<xterm_from_code!(141) as ComptimeColor>::VALUE, || erase(xterm_from_code!(141))),
    (<xterm_from_code!(142) as ComptimeColor>::VALUE, || erase(xterm_from_code!(142))),
    (<xterm_from_code!(143) as ComptimeColor>::VALUE, || erase(xterm_from_code!(143))),
    (<xterm_from_code!(144) as ComptimeColor>::VALUE, || erase(xterm_from_code!(144))),
    (<xterm_from_code!(145) as ComptimeColor>::VALUE, || erase(xterm_from_code!(145))),
    (<xterm_from_code!(146) as ComptimeColor>::VALUE, || erase(xterm_from_code!(146))),
    (<xterm_from_code!(147) as ComptimeColor>::VALUE, || erase(xterm_from_code!(147))),
    (<xterm_from_code!(148) as ComptimeColor>::VALUE, || erase(xterm_from_code!(148))),
    (<xterm_from_code!(149) as ComptimeColor>::VALUE, || erase(xterm_from_code!(149))),
    (<xterm_from_code!(150) as ComptimeColor>::VALUE, || erase(xterm_from_code!(150))),
    (<xterm_from_code!(151) as ComptimeColor>::VALUE, || erase(xterm_from_code!(151))),
    (<xterm_from_code!(152) as ComptimeColor>::VALUE, || erase(xterm_from_code!(152))),
    (<xterm_from_code!(153) as ComptimeColor>::VALUE, || erase(xterm_from_code!(153))),
    (<xterm_from_code!(154) as ComptimeColor>::VALUE, || erase(xterm_from_code!(154))),
    (<xterm_from_code!(155) as ComptimeColor>::VALUE, || erase(xterm_from_code!(155))),
    (<xterm_from_code!(156) as ComptimeColor>::VALUE, || erase(xterm_from_code!(156))),
    (<xterm_from_code!(157) as ComptimeColor>::VALUE, || erase(xterm_from_code!(157))),
    (<xterm_from_code!(158) as ComptimeColor>::VALUE, || erase(xterm_from_code!(158))),
    (<xterm_from_code!(159) as ComptimeColor>::VALUE, || erase(xterm_from_code!(159))),
    (<xterm_from_code!(160) as ComptimeColor>::VALUE, || erase(xterm_from_code!(160))),
    (<xterm_from_code!(161) as ComptimeColor>::VALUE, || erase(xterm_from_code!(161))),
    (<xterm_from_code!(162) as ComptimeColor>::VALUE, || erase(xterm_from_code!(162))),
    (<xterm_from_code!(163) as ComptimeColor>::VALUE, || erase(xterm_from_code!(163))),
    (<xterm_from_code!(164) as ComptimeColor>::VALUE, || erase(xterm_from_code!(164))),
    (<xterm_from_code!(165) as ComptimeColor>::VALUE, || erase(xterm_from_code!(165))),
    (<xterm_from_code!(166) as ComptimeColor>::VALUE, || erase(xterm_from_code!(166))),
    (<xterm_from_code!(167) as ComptimeColor>::VALUE, || erase(xterm_from_code!(167))),
    (<xterm_from_code!(168) as ComptimeColor>::VALUE, || erase(xterm_from_code!(168))),
    (<xterm_from_code!(169) as ComptimeColor>::VALUE, || erase(xterm_from_code!(169))),
    (<xterm_from_code!(170) as ComptimeColor>::VALUE, || erase(xterm_from_code!(170))),
    (<xterm_from_code!(171) as ComptimeColor>::VALUE, || erase(xterm_from_code!(171))),
    (<xterm_from_code!(172) as ComptimeColor>::VALUE, || erase(xterm_from_code!(172))),
    (<xterm_from_code!(173) as ComptimeColor>::VALUE, || erase(xterm_from_code!(173))),
    (<xterm_from_code!(174) as ComptimeColor>::VALUE, || erase(xterm_from_code!(174))),
    (<xterm_from_code!(175) as ComptimeColor>::VALUE, || erase(xterm_from_code!(175))),
    (<xterm_from_code!(176) as ComptimeColor>::VALUE, || erase(xterm_from_code!(176))),
    (<xterm_from_code!(177) as ComptimeColor>::VALUE, || erase(xterm_from_code!(177))),
    (<xterm_from_code!(178) as ComptimeColor>::VALUE, || erase(xterm_from_code!(178))),
    (<xterm_from_code!(179) as ComptimeColor>::VALUE, || erase(xterm_from_code!(179))),
    (<xterm_from_code!(180) as ComptimeColor>::VALUE, || erase(xterm_from_code!(180))),
    (<xterm_from_code!(181) as ComptimeColor>::VALUE, || erase(xterm_from_code!(181))),
    (<xterm_from_code!(182) as ComptimeColor>::VALUE, || erase(xterm_from_code!(182))),
    (<xterm_from_code!(183) as ComptimeColor>::VALUE, || erase(xterm_from_code!(183))),
    (<xterm_from_code!(184) as ComptimeColor>::VALUE, || erase(xterm_from_code!(184))),
    (<xterm_from_code!(185) as ComptimeColor>::VALUE, || erase(xterm_from_code!(185))),
    (<xterm_from_code!(186) as ComptimeColor>::VALUE, || erase(xterm_from_code!(186))),
    (<xterm_from_code!(187) as ComptimeColor>::VALUE, || erase(xterm_from_code!(187))),
    (<xterm_from_code!(188) as ComptimeColor>::VALUE, || erase(xterm_from_code!(188))),
    (<xterm_from_code!(189) as ComptimeColor>::VALUE, || erase(xterm_from_code!(189))),
    (<xterm_from_code!(190) as ComptimeColor>::VALUE, || erase(xterm_from_code!(190))),
    (<xterm_from_code!(191) as ComptimeColor>::VALUE, || erase(xterm_from_code!(191))),
    (<xterm_from_code!(192) as ComptimeColor>::VALUE, || erase(xterm_from_code!(192))),
    (<xterm_from_code!(193) as ComptimeColor>::VALUE, || erase(xterm_from_code!(193))),
    (<xterm_from_code!(194) as ComptimeColor>::VALUE, || erase(xterm_from_code!(194))),
    (<xterm_from_code!(195) as ComptimeColor>::VALUE, || erase(xterm_from_code!(195))),
    (<xterm_from_code!(196) as ComptimeColor>::VALUE, || erase(xterm_from_code!(196))),
    (<xterm_from_code!(197) as ComptimeColor>::VALUE, || erase(xterm_from_code!(197))),
    (<xterm_from_code!(198) as ComptimeColor>::VALUE, || erase(xterm_from_code!(198))),
    (<xterm_from_code!(199) as ComptimeColor>::VALUE, || erase(xterm_from_code!(199))),
    (<xterm_from_code!(200) as ComptimeColor>::VALUE, || erase(xterm_from_code!(200))),
    (<xterm_from_code!(201) as ComptimeColor>::VALUE, || erase(xterm_from_code!(201))),
    (<xterm_from_code!(202) as ComptimeColor>::VALUE, || erase(xterm_from_code!(202))),
    (<xterm_from_code!(203) as ComptimeColor>::VALUE, || erase(xterm_from_code!(203))),
    (<xterm_from_code!(204) as ComptimeColor>::VALUE, || erase(xterm_from_code!(204))),
    (<xterm_from_code!(205) as ComptimeColor>::VALUE, || erase(xterm_from_code!(205))),
    (<xterm_from_code!(206) as ComptimeColor>::VALUE, || erase(xterm_from_code!(206))),
    (<xterm_from_code!(207) as ComptimeColor>::VALUE, || erase(xterm_from_code!(207))),
    (<xterm_from_code!(208) as ComptimeColor>::VALUE, || erase(xterm_from_code!(208))),
    (<xterm_from_code!(209) as ComptimeColor>::VALUE, || erase(xterm_from_code!(209))),
    (<xterm_from_code!(210) as ComptimeColor>::VALUE, || erase(xterm_from_code!(210))),
    (<xterm_from_code!(211) as ComptimeColor>::VALUE, || erase(xterm_from_code!(211))),
    (<xterm_from_code!(212) as ComptimeColor>::VALUE, || erase(xterm_from_code!(212))),
    (<xterm_from_code!(213) as ComptimeColor>::VALUE, || erase(xterm_from_code!(213))),
    (<xterm_from_code!(214) as ComptimeColor>::VALUE, || erase(xterm_from_code!(214))),
    (<xterm_from_code!(215) as ComptimeColor>::VALUE, || erase(xterm_from_code!(215))),
    (<xterm_from_code!(216) as ComptimeColor>::VALUE, || erase(xterm_from_code!(216))),
    (<xterm_from_code!(217) as ComptimeColor>::VALUE, || erase(xterm_from_code!(217))),
    (<xterm_from_code!(218) as ComptimeColor>::VALUE, || erase(xterm_from_code!(218))),
    (<xterm_from_code!(219) as ComptimeColor>::VALUE, || erase(xterm_from_code!(219))),
    (<xterm_from_code!(220) as ComptimeColor>::VALUE, || erase(xterm_from_code!(220))),
    (<xterm_from_code!(221) as ComptimeColor>::VALUE, || erase(xterm_from_code!(221))),
    (<xterm_from_code!(222) as ComptimeColor>::VALUE, || erase(xterm_from_code!(222))),
    (<xterm_from_code!(223) as ComptimeColor>::VALUE, || erase(xterm_from_code!(223))),
    (<xterm_from_code!(224) as ComptimeColor>::VALUE, || erase(xterm_from_code!(224))),
    (<xterm_from_code!(225) as ComptimeColor>::VALUE, || erase(xterm_from_code!(225))),
    (<xterm_from_code!(226) as ComptimeColor>::VALUE, || erase(xterm_from_code!(226))),
    (<xterm_from_code!(227) as ComptimeColor>::VALUE, || erase(xterm_from_code!(227))),
    (<xterm_from_code!(228) as ComptimeColor>::VALUE, || erase(xterm_from_code!(228))),
    (<xterm_from_code!(229) as ComptimeColor>::VALUE, || erase(xterm_from_code!(229))),
    (<xterm_from_code!(230) as ComptimeColor>::VALUE, || erase(xterm_from_code!(230))),
    (<xterm_from_code!(231) as ComptimeColor>::VALUE, || erase(xterm_from_code!(231))),
    (<xterm_from_code!(232) as ComptimeColor>::VALUE, || erase(xterm_from_code!(232))),
    (<xterm_from_code!(233) as ComptimeColor>::VALUE, || erase(xterm_from_code!(233))),
    (<xterm_from_code!(234) as ComptimeColor>::VALUE, || erase(xterm_from_code!(234))),
    (<xterm_from_code!(235) as ComptimeColor>::VALUE, || erase(xterm_from_code!(235))),
    (<xterm_from_code!(236) as ComptimeColor>::VALUE, || erase(xterm_from_code!(236))),
    (<xterm_from_code!(237) as ComptimeColor>::VALUE, || erase(xterm_from_code!(237))),
    (<xterm_from_code!(238) as ComptimeColor>::VALUE, || erase(xterm_from_code!(238))),
    (<xterm_from_code!(239) as ComptimeColor>::VALUE, || erase(xterm_from_code!(239))),
    (<xterm_from_code!(240) as ComptimeColor>::VALUE, || erase(xterm_from_code!(240))),
    (<xterm_from_code!(241) as ComptimeColor>::VALUE, || erase(xterm_from_code!(241))),
    (<xterm_from_code!(242) as ComptimeColor>::VALUE, || erase(xterm_from_code!(242))),
    (<xterm_from_code!(243) as ComptimeColor>::VALUE, || erase(xterm_from_code!(243))),
    (<xterm_from_code!(244) as ComptimeColor>::VALUE, || erase(xterm_from_code!(244))),
    (<xterm_from_code!(245) as ComptimeColor>::VALUE, || erase(xterm_from_code!(245))),
    (<xterm_from_code!(246) as ComptimeColor>::VALUE, || erase(xterm_from_code!(246))),
    (<xterm_from_code!(247) as ComptimeColor>::VALUE, || erase(xterm_from_code!(247))),
    (<xterm_from_code!(248) as ComptimeColor>::VALUE, || erase(xterm_from_code!(248))),
    (<xterm_from_code!(249) as ComptimeColor>::VALUE, || erase(xterm_from_code!(249))),
    (<xterm_from_code!(250) as ComptimeColor>::VALUE, || erase(xterm_from_code!(250))),
    (<xterm_from_code!(251) as ComptimeColor>::VALUE, || erase(xterm_from_code!(251))),
    (<xterm_from_code!(252) as ComptimeColor>::VALUE, || erase(xterm_from_code!(252))),
    (<xterm_from_code!(253) as ComptimeColor>::VALUE, || erase(xterm_from_code!(253))),
    (<xterm_from_code!(254) as ComptimeColor>::VALUE, || erase(xterm_from_code!(254))),
    (<xterm_from_code!(255) as ComptimeColor>::VALUE, || erase(xterm_from_code!(255))),
];
