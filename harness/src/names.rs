//! Independent name tables.
//!
//! CSS values come from the CSS Color Module Level 4 named color list (the spelling of the
//! names is this crate's). Xterm names are the published name/code contract. ANSI indices
//! are the ECMA-48 / aixterm order.

#[macro_export]
macro_rules! for_each_ansi { ($m:ident) => { $m! {
    0 Black
    1 Red
    2 Green
    3 Yellow
    4 Blue
    5 Magenta
    6 Cyan
    7 White
    8 BrightBlack
    9 BrightRed
    10 BrightGreen
    11 BrightYellow
    12 BrightBlue
    13 BrightMagenta
    14 BrightCyan
    15 BrightWhite
} } }

#[macro_export]
macro_rules! for_each_xterm { ($m:ident) => { $m! {
    0 Black
    1 Red
    2 Green
    3 Yellow
    4 Blue
    5 Magenta
    6 Cyan
    7 White
    8 BrightBlack
    9 BrightRed
    10 BrightGreen
    11 BrightYellow
    12 BrightBlue
    13 BrightMagenta
    14 BrightCyan
    15 BrightWhite
    16 Gray0
    17 Navy
    18 DarkBlue
    19 Blue3
    20 MediumBlue
    21 Blue1
    22 DarkGreen
    23 Teal
    24 DeepSkyBlue4
    25 DodgerBlue4
    26 DodgerBlue3
    27 DodgerBlue2
    28 Green4
    29 SpringGreen4
    30 Turquoise4
    31 DarkCyan
    32 DeepSkyBlue3
    33 DodgerBlue
    34 ForestGreen
    35 SeaGreen
    36 Cyan4
    37 LightSeaGreen
    38 DeepSkyBlue2
    39 DeepSkyBlue
    40 Green3
    41 SpringGreen3
    42 SpringGreen2
    43 Cyan3
    44 DarkTurquoise
    45 Turquoise2
    46 Lime
    47 SpringGreen1
    48 SpringGreen
    49 MediumSpringGreen
    50 Cyan2
    51 Aqua
    52 Firebrick4
    53 DarkOrchid4
    54 Indigo
    55 Purple4
    56 Purple3
    57 BlueViolet
    58 Olive
    59 Gray37
    60 MediumPurple4
    61 SlateBlue
    62 SlateBlue3
    63 RoyalBlue1
    64 Chartreuse4
    65 DarkSeaGreen4
    66 PaleTurquoise4
    67 SteelBlue
    68 SteelBlue3
    69 CornflowerBlue
    70 OliveDrab
    71 PaleGreen4
    72 DarkSlateGray4
    73 CadetBlue
    74 SkyBlue3
    75 SteelBlue1
    76 Chartreuse3
    77 MediumSeaGreen
    78 SeaGreen3
    79 MediumAquamarine
    80 MediumTurquoise
    81 LightSkyBlue
    82 Chartreuse2
    83 LimeGreen
    84 SeaGreen2
    85 SeaGreen1
    86 Aquamarine1
    87 DarkSlateGray2
    88 DarkRed
    89 DeepPink4
    90 DarkMagenta
    91 Magenta4
    92 DarkViolet
    93 Purple2
    94 Orange4
    95 LightPink4
    96 Plum4
    97 Orchid4
    98 MediumPurple3
    99 SlateBlue1
    100 Yellow4
    101 Wheat4
    102 Gray53
    103 LightSlateGray
    104 MediumPurple
    105 LightSlateBlue
    106 OliveDrab4
    107 LemonChiffon4
    108 DarkSeaGreen
    109 Gray63
    110 LightSkyBlue3
    111 SkyBlue2
    112 LawnGreen
    113 YellowGreen
    114 PaleGreen3
    115 DarkSeaGreen3
    116 DarkSlateGray3
    117 SkyBlue1
    118 Chartreuse
    119 OliveDrab2
    120 LightGreen
    121 PaleGreen1
    122 Aquamarine
    123 DarkSlateGray1
    124 Red4
    125 Maroon4
    126 MediumVioletRed
    127 Maroon3
    128 DarkOrchid3
    129 Purple
    130 DarkGoldenrod4
    131 IndianRed3
    132 PaleVioletRed3
    133 MediumOrchid3
    134 MediumOrchid
    135 DarkOrchid1
    136 DarkGoldenrod
    137 NavajoWhite4
    138 RosyBrown
    139 Grey63
    140 MediumPurple2
    141 MediumPurple1
    142 DarkGoldenrod3
    143 DarkKhaki
    144 NavajoWhite3
    145 Gray69
    146 LightSteelBlue3
    147 LightSteelBlue
    148 OliveDrab3
    149 DarkOliveGreen3
    150 PaleGreen2
    151 Honeydew3
    152 LightCyan3
    153 LightSkyBlue1
    154 GreenYellow
    155 DarkOliveGreen2
    156 PaleGreen
    157 DarkSeaGreen2
    158 DarkSeaGreen1
    159 PaleTurquoise1
    160 Red3
    161 Crimson
    162 DeepPink3
    163 VioletRed
    164 Magenta3
    165 Magenta2
    166 DarkOrange3
    167 IndianRed
    168 HotPink3
    169 HotPink2
    170 Orchid
    171 MediumOrchid1
    172 Orange3
    173 LightSalmon3
    174 LightPink3
    175 Pink3
    176 Plum3
    177 Violet
    178 Gold3
    179 LightGoldenrod3
    180 Tan
    181 MistyRose3
    182 Thistle3
    183 Plum2
    184 Yellow3
    185 Khaki3
    186 LightGoldenrod
    187 LightYellow3
    188 Gray84
    189 LightSteelBlue1
    190 Yellow2
    191 DarkOliveGreen1
    192 Khaki2
    193 PaleGoldenrod
    194 Honeydew2
    195 LightCyan
    196 Red1
    197 DeepPink2
    198 DeepPink
    199 DeepPink1
    200 Magenta1
    201 Fuchsia
    202 OrangeRed
    203 IndianRed1
    204 VioletRed1
    205 HotPink
    206 HotPink1
    207 MediumOrchid2
    208 DarkOrange
    209 Salmon1
    210 LightCoral
    211 PaleVioletRed1
    212 Orchid2
    213 Orchid1
    214 Orange
    215 SandyBrown
    216 LightSalmon
    217 LightPink1
    218 Pink1
    219 Plum1
    220 Gold
    221 Khaki
    222 LightGoldenrod2
    223 NavajoWhite
    224 MistyRose
    225 Thistle1
    226 Yellow1
    227 LightGoldenrod1
    228 Khaki1
    229 Wheat1
    230 Cornsilk
    231 Gray100
    232 Gray3
    233 Gray7
    234 Gray11
    235 Gray15
    236 Gray19
    237 Gray23
    238 Gray27
    239 Gray30
    240 Gray34
    241 Gray38
    242 Gray42
    243 Gray46
    244 Gray50
    245 Gray54
    246 Gray58
    247 Gray62
    248 Gray66
    249 Gray70
    250 Gray74
    251 Gray78
    252 Gray81
    253 Gray85
    254 Gray89
    255 Gray93
} } }

#[macro_export]
macro_rules! for_each_css { ($m:ident) => { $m! {
    AliceBlue 240 248 255
    AntiqueWhite 250 235 215
    Aqua 0 255 255
    Aquamarine 127 255 212
    Azure 240 255 255
    Beige 245 245 220
    Bisque 255 228 196
    Black 0 0 0
    BlanchedAlmond 255 235 205
    Blue 0 0 255
    BlueViolet 138 43 226
    Brown 165 42 42
    BurlyWood 222 184 135
    CadetBlue 95 158 160
    Chartreuse 127 255 0
    Chocolate 210 105 30
    Coral 255 127 80
    CornflowerBlue 100 149 237
    Cornsilk 255 248 220
    Crimson 220 20 60
    DarkBlue 0 0 139
    DarkCyan 0 139 139
    DarkGoldenRod 184 134 11
    DarkGray 169 169 169
    DarkGrey 169 169 169
    DarkGreen 0 100 0
    DarkKhaki 189 183 107
    DarkMagenta 139 0 139
    DarkOliveGreen 85 107 47
    DarkOrange 255 140 0
    DarkOrchid 153 50 204
    DarkRed 139 0 0
    DarkSalmon 233 150 122
    DarkSeaGreen 143 188 143
    DarkSlateBlue 72 61 139
    DarkSlateGray 47 79 79
    DarkSlateGrey 47 79 79
    DarkTurquoise 0 206 209
    DarkViolet 148 0 211
    DeepPink 255 20 147
    DeepSkyBlue 0 191 255
    DimGray 105 105 105
    DimGrey 105 105 105
    DodgerBlue 30 144 255
    FireBrick 178 34 34
    FloralWhite 255 250 240
    ForestGreen 34 139 34
    Fuchsia 255 0 255
    Gainsboro 220 220 220
    GhostWhite 248 248 255
    Gold 255 215 0
    GoldenRod 218 165 32
    Gray 128 128 128
    Grey 128 128 128
    Green 0 128 0
    GreenYellow 173 255 47
    HoneyDew 240 255 240
    HotPink 255 105 180
    IndianRed 205 92 92
    Indigo 75 0 130
    Ivory 255 255 240
    Khaki 240 230 140
    Lavender 230 230 250
    LavenderBlush 255 240 245
    LawnGreen 124 252 0
    LemonChiffon 255 250 205
    LightBlue 173 216 230
    LightCoral 240 128 128
    LightCyan 224 255 255
    LightGoldenRodYellow 250 250 210
    LightGray 211 211 211
    LightGrey 211 211 211
    LightGreen 144 238 144
    LightPink 255 182 193
    LightSalmon 255 160 122
    LightSeaGreen 32 178 170
    LightSkyBlue 135 206 250
    LightSlateGray 119 136 153
    LightSlateGrey 119 136 153
    LightSteelBlue 176 196 222
    LightYellow 255 255 224
    Lime 0 255 0
    LimeGreen 50 205 50
    Linen 250 240 230
    Magenta 255 0 255
    Maroon 128 0 0
    MediumAquaMarine 102 205 170
    MediumBlue 0 0 205
    MediumOrchid 186 85 211
    MediumPurple 147 112 219
    MediumSeaGreen 60 179 113
    MediumSlateBlue 123 104 238
    MediumSpringGreen 0 250 154
    MediumTurquoise 72 209 204
    MediumVioletRed 199 21 133
    MidnightBlue 25 25 112
    MintCream 245 255 250
    MistyRose 255 228 225
    Moccasin 255 228 181
    NavajoWhite 255 222 173
    Navy 0 0 128
    OldLace 253 245 230
    Olive 128 128 0
    OliveDrab 107 142 35
    Orange 255 165 0
    OrangeRed 255 69 0
    Orchid 218 112 214
    PaleGoldenRod 238 232 170
    PaleGreen 152 251 152
    PaleTurquoise 175 238 238
    PaleVioletRed 219 112 147
    PapayaWhip 255 239 213
    PeachPuff 255 218 185
    Peru 205 133 63
    Pink 255 192 203
    Plum 221 160 221
    PowderBlue 176 224 230
    Purple 128 0 128
    RebeccaPurple 102 51 153
    Red 255 0 0
    RosyBrown 188 143 143
    RoyalBlue 65 105 225
    SaddleBrown 139 69 19
    Salmon 250 128 114
    SandyBrown 244 164 96
    SeaGreen 46 139 87
    SeaShell 255 245 238
    Sienna 160 82 45
    Silver 192 192 192
    SkyBlue 135 206 235
    SlateBlue 106 90 205
    SlateGray 112 128 144
    SlateGrey 112 128 144
    Snow 255 250 250
    SpringGreen 0 255 127
    SteelBlue 70 130 180
    Tan 210 180 140
    Teal 0 128 128
    Thistle 216 191 216
    Tomato 255 99 71
    Turquoise 64 224 208
    Violet 238 130 238
    Wheat 245 222 179
    White 255 255 255
    WhiteSmoke 245 245 245
    Yellow 255 255 0
    YellowGreen 154 205 50
} } }
