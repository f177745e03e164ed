// H09: the exported jamo constants, from the Unicode character names (tools/mkjamo.py)
const [H09]
  hangul.G == 0x3131,
  hangul.GG == 0x3132,
  hangul.GS == 0x3133,
  hangul.N == 0x3134,
  hangul.NJ == 0x3135,
  hangul.NH == 0x3136,
  hangul.D == 0x3137,
  hangul.DD == 0x3138,
  hangul.L == 0x3139,
  hangul.LG == 0x313A,
  hangul.LM == 0x313B,
  hangul.LB == 0x313C,
  hangul.LS == 0x313D,
  hangul.LT == 0x313E,
  hangul.LP == 0x313F,
  hangul.LH == 0x3140,
  hangul.M == 0x3141,
  hangul.B == 0x3142,
  hangul.BB == 0x3143,
  hangul.BS == 0x3144,
  hangul.S == 0x3145,
  hangul.SS == 0x3146,
  hangul.ZS == 0x3147,
  hangul.J == 0x3148,
  hangul.JJ == 0x3149,
  hangul.C == 0x314A,
  hangul.K == 0x314B,
  hangul.T == 0x314C,
  hangul.P == 0x314D,
  hangul.H == 0x314E,
  hangul.NG == 0x3147,
  hangul.A == 0x314F,
  hangul.AE == 0x3150,
  hangul.YA == 0x3151,
  hangul.YAE == 0x3152,
  hangul.EO == 0x3153,
  hangul.E == 0x3154,
  hangul.YEO == 0x3155,
  hangul.YE == 0x3156,
  hangul.O == 0x3157,
  hangul.WA == 0x3158,
  hangul.WAE == 0x3159,
  hangul.OE == 0x315A,
  hangul.YO == 0x315B,
  hangul.U == 0x315C,
  hangul.WEO == 0x315D,
  hangul.WE == 0x315E,
  hangul.WI == 0x315F,
  hangul.YU == 0x3160,
  hangul.EU == 0x3161,
  hangul.YI == 0x3162,
  hangul.I == 0x3163,
  hangul.LeadG == 0x1100,
  hangul.LeadGG == 0x1101,
  hangul.LeadN == 0x1102,
  hangul.LeadD == 0x1103,
  hangul.LeadDD == 0x1104,
  hangul.LeadR == 0x1105,
  hangul.LeadM == 0x1106,
  hangul.LeadB == 0x1107,
  hangul.LeadBB == 0x1108,
  hangul.LeadS == 0x1109,
  hangul.LeadSS == 0x110A,
  hangul.LeadZS == 0x110B,
  hangul.LeadJ == 0x110C,
  hangul.LeadJJ == 0x110D,
  hangul.LeadC == 0x110E,
  hangul.LeadK == 0x110F,
  hangul.LeadT == 0x1110,
  hangul.LeadP == 0x1111,
  hangul.LeadH == 0x1112,
  hangul.MedialA == 0x1161,
  hangul.MedialAE == 0x1162,
  hangul.MedialYA == 0x1163,
  hangul.MedialYAE == 0x1164,
  hangul.MedialEO == 0x1165,
  hangul.MedialE == 0x1166,
  hangul.MedialYEO == 0x1167,
  hangul.MedialYE == 0x1168,
  hangul.MedialO == 0x1169,
  hangul.MedialWA == 0x116A,
  hangul.MedialWAE == 0x116B,
  hangul.MedialOE == 0x116C,
  hangul.MedialYO == 0x116D,
  hangul.MedialU == 0x116E,
  hangul.MedialWEO == 0x116F,
  hangul.MedialWE == 0x1170,
  hangul.MedialWI == 0x1171,
  hangul.MedialYU == 0x1172,
  hangul.MedialEU == 0x1173,
  hangul.MedialYI == 0x1174,
  hangul.MedialI == 0x1175,
  hangul.TailG == 0x11A8,
  hangul.TailGG == 0x11A9,
  hangul.TailGS == 0x11AA,
  hangul.TailN == 0x11AB,
  hangul.TailNJ == 0x11AC,
  hangul.TailNH == 0x11AD,
  hangul.TailD == 0x11AE,
  hangul.TailL == 0x11AF,
  hangul.TailLG == 0x11B0,
  hangul.TailLM == 0x11B1,
  hangul.TailLB == 0x11B2,
  hangul.TailLS == 0x11B3,
  hangul.TailLT == 0x11B4,
  hangul.TailLP == 0x11B5,
  hangul.TailLH == 0x11B6,
  hangul.TailM == 0x11B7,
  hangul.TailB == 0x11B8,
  hangul.TailBS == 0x11B9,
  hangul.TailS == 0x11BA,
  hangul.TailSS == 0x11BB,
  hangul.TailNG == 0x11BC,
  hangul.TailJ == 0x11BD,
  hangul.TailC == 0x11BE,
  hangul.TailK == 0x11BF,
  hangul.TailT == 0x11C0,
  hangul.TailP == 0x11C1,
  hangul.TailH == 0x11C2
