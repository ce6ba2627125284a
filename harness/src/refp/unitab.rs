// ID_Start (1), ID_Continue only (2), neither (0); 3: assigned after the Unicode version of giron's tables. From Perl's Unicode 15.0.0 properties.
pub static IDTAB: &[(u32, u8)] = &[
(0x80,0),
(0xaa,1),
(0xab,0),
(0xb5,1),
(0xb6,0),
(0xb7,2),
(0xb8,0),
(0xba,1),
(0xbb,0),
(0xc0,1),
(0xd7,0),
(0xd8,1),
(0xf7,0),
(0xf8,1),
(0x2c2,0),
(0x2c6,1),
(0x2d2,0),
(0x2e0,1),
(0x2e5,0),
(0x2ec,1),
(0x2ed,0),
(0x2ee,1),
(0x2ef,0),
(0x300,2),
(0x370,1),
(0x375,0),
(0x376,1),
(0x378,3),
(0x37a,1),
(0x37e,0),
(0x37f,1),
(0x380,3),
(0x384,0),
(0x386,1),
(0x387,2),
(0x388,1),
(0x38b,3),
(0x38c,1),
(0x38d,3),
(0x38e,1),
(0x3a2,3),
(0x3a3,1),
(0x3f6,0),
(0x3f7,1),
(0x482,0),
(0x483,2),
(0x488,0),
(0x48a,1),
(0x530,3),
(0x531,1),
(0x557,3),
(0x559,1),
(0x55a,0),
(0x560,3),
(0x561,1),
(0x588,3),
(0x589,0),
(0x58b,3),
(0x58d,0),
(0x590,3),
(0x591,2),
(0x5be,0),
(0x5bf,2),
(0x5c0,0),
(0x5c1,2),
(0x5c3,0),
(0x5c4,2),
(0x5c6,0),
(0x5c7,2),
(0x5c8,3),
(0x5d0,1),
(0x5eb,3),
(0x5f0,1),
(0x5f3,0),
(0x5f5,3),
(0x600,0),
(0x610,2),
(0x61b,0),
(0x620,1),
(0x64b,2),
(0x66a,0),
(0x66e,1),
(0x670,2),
(0x671,1),
(0x6d4,0),
(0x6d5,1),
(0x6d6,2),
(0x6dd,0),
(0x6df,2),
(0x6e5,1),
(0x6e7,2),
(0x6e9,0),
(0x6ea,2),
(0x6ee,1),
(0x6f0,2),
(0x6fa,1),
(0x6fd,0),
(0x6ff,1),
(0x700,0),
(0x70e,3),
(0x70f,0),
(0x710,1),
(0x711,2),
(0x712,1),
(0x730,2),
(0x74b,3),
(0x74d,1),
(0x7a6,2),
(0x7b1,1),
(0x7b2,3),
(0x7c0,2),
(0x7ca,1),
(0x7eb,2),
(0x7f4,1),
(0x7f6,0),
(0x7fa,1),
(0x7fb,3),
(0x7fe,0),
(0x800,1),
(0x816,2),
(0x81a,1),
(0x81b,2),
(0x824,1),
(0x825,2),
(0x828,1),
(0x829,2),
(0x82e,3),
(0x830,0),
(0x83f,3),
(0x840,1),
(0x859,2),
(0x85c,3),
(0x85e,0),
(0x85f,3),
(0x888,0),
(0x889,3),
(0x890,0),
(0x892,3),
(0x8a0,1),
(0x8b5,3),
(0x8e2,0),
(0x8e3,2),
(0x904,1),
(0x93a,2),
(0x93d,1),
(0x93e,2),
(0x950,1),
(0x951,2),
(0x958,1),
(0x962,2),
(0x964,0),
(0x966,2),
(0x970,0),
(0x971,1),
(0x981,2),
(0x984,3),
(0x985,1),
(0x98d,3),
(0x98f,1),
(0x991,3),
(0x993,1),
(0x9a9,3),
(0x9aa,1),
(0x9b1,3),
(0x9b2,1),
(0x9b3,3),
(0x9b6,1),
(0x9ba,3),
(0x9bc,2),
(0x9bd,1),
(0x9be,2),
(0x9c5,3),
(0x9c7,2),
(0x9c9,3),
(0x9cb,2),
(0x9ce,1),
(0x9cf,3),
(0x9d7,2),
(0x9d8,3),
(0x9dc,1),
(0x9de,3),
(0x9df,1),
(0x9e2,2),
(0x9e4,3),
(0x9e6,2),
(0x9f0,1),
(0x9f2,0),
(0x9fc,3),
(0x9fd,0),
(0x9fe,3),
(0xa01,2),
(0xa04,3),
(0xa05,1),
(0xa0b,3),
(0xa0f,1),
(0xa11,3),
(0xa13,1),
(0xa29,3),
(0xa2a,1),
(0xa31,3),
(0xa32,1),
(0xa34,3),
(0xa35,1),
(0xa37,3),
(0xa38,1),
(0xa3a,3),
(0xa3c,2),
(0xa3d,3),
(0xa3e,2),
(0xa43,3),
(0xa47,2),
(0xa49,3),
(0xa4b,2),
(0xa4e,3),
(0xa51,2),
(0xa52,3),
(0xa59,1),
(0xa5d,3),
(0xa5e,1),
(0xa5f,3),
(0xa66,2),
(0xa72,1),
(0xa75,2),
(0xa76,0),
(0xa77,3),
(0xa81,2),
(0xa84,3),
(0xa85,1),
(0xa8e,3),
(0xa8f,1),
(0xa92,3),
(0xa93,1),
(0xaa9,3),
(0xaaa,1),
(0xab1,3),
(0xab2,1),
(0xab4,3),
(0xab5,1),
(0xaba,3),
(0xabc,2),
(0xabd,1),
(0xabe,2),
(0xac6,3),
(0xac7,2),
(0xaca,3),
(0xacb,2),
(0xace,3),
(0xad0,1),
(0xad1,3),
(0xae0,1),
(0xae2,2),
(0xae4,3),
(0xae6,2),
(0xaf0,0),
(0xaf2,3),
(0xaf9,1),
(0xafa,3),
(0xb01,2),
(0xb04,3),
(0xb05,1),
(0xb0d,3),
(0xb0f,1),
(0xb11,3),
(0xb13,1),
(0xb29,3),
(0xb2a,1),
(0xb31,3),
(0xb32,1),
(0xb34,3),
(0xb35,1),
(0xb3a,3),
(0xb3c,2),
(0xb3d,1),
(0xb3e,2),
(0xb45,3),
(0xb47,2),
(0xb49,3),
(0xb4b,2),
(0xb4e,3),
(0xb56,2),
(0xb58,3),
(0xb5c,1),
(0xb5e,3),
(0xb5f,1),
(0xb62,2),
(0xb64,3),
(0xb66,2),
(0xb70,0),
(0xb71,1),
(0xb72,0),
(0xb78,3),
(0xb82,2),
(0xb83,1),
(0xb84,3),
(0xb85,1),
(0xb8b,3),
(0xb8e,1),
(0xb91,3),
(0xb92,1),
(0xb96,3),
(0xb99,1),
(0xb9b,3),
(0xb9c,1),
(0xb9d,3),
(0xb9e,1),
(0xba0,3),
(0xba3,1),
(0xba5,3),
(0xba8,1),
(0xbab,3),
(0xbae,1),
(0xbba,3),
(0xbbe,2),
(0xbc3,3),
(0xbc6,2),
(0xbc9,3),
(0xbca,2),
(0xbce,3),
(0xbd0,1),
(0xbd1,3),
(0xbd7,2),
(0xbd8,3),
(0xbe6,2),
(0xbf0,0),
(0xbfb,3),
(0xc00,2),
(0xc04,3),
(0xc05,1),
(0xc0d,3),
(0xc0e,1),
(0xc11,3),
(0xc12,1),
(0xc29,3),
(0xc2a,1),
(0xc3a,3),
(0xc3d,1),
(0xc3e,2),
(0xc45,3),
(0xc46,2),
(0xc49,3),
(0xc4a,2),
(0xc4e,3),
(0xc55,2),
(0xc57,3),
(0xc58,1),
(0xc5b,3),
(0xc60,1),
(0xc62,2),
(0xc64,3),
(0xc66,2),
(0xc70,3),
(0xc77,0),
(0xc80,3),
(0xc81,2),
(0xc84,0),
(0xc85,1),
(0xc8d,3),
(0xc8e,1),
(0xc91,3),
(0xc92,1),
(0xca9,3),
(0xcaa,1),
(0xcb4,3),
(0xcb5,1),
(0xcba,3),
(0xcbc,2),
(0xcbd,1),
(0xcbe,2),
(0xcc5,3),
(0xcc6,2),
(0xcc9,3),
(0xcca,2),
(0xcce,3),
(0xcd5,2),
(0xcd7,3),
(0xcde,1),
(0xcdf,3),
(0xce0,1),
(0xce2,2),
(0xce4,3),
(0xce6,2),
(0xcf0,3),
(0xcf1,1),
(0xcf3,3),
(0xd01,2),
(0xd04,3),
(0xd05,1),
(0xd0d,3),
(0xd0e,1),
(0xd11,3),
(0xd12,1),
(0xd3b,3),
(0xd3d,1),
(0xd3e,2),
(0xd45,3),
(0xd46,2),
(0xd49,3),
(0xd4a,2),
(0xd4e,1),
(0xd4f,0),
(0xd50,3),
(0xd57,2),
(0xd58,0),
(0xd5f,1),
(0xd62,2),
(0xd64,3),
(0xd66,2),
(0xd70,0),
(0xd7a,1),
(0xd80,3),
(0xd82,2),
(0xd84,3),
(0xd85,1),
(0xd97,3),
(0xd9a,1),
(0xdb2,3),
(0xdb3,1),
(0xdbc,3),
(0xdbd,1),
(0xdbe,3),
(0xdc0,1),
(0xdc7,3),
(0xdca,2),
(0xdcb,3),
(0xdcf,2),
(0xdd5,3),
(0xdd6,2),
(0xdd7,3),
(0xdd8,2),
(0xde0,3),
(0xde6,2),
(0xdf0,3),
(0xdf2,2),
(0xdf4,0),
(0xdf5,3),
(0xe01,1),
(0xe31,2),
(0xe32,1),
(0xe34,2),
(0xe3b,3),
(0xe3f,0),
(0xe40,1),
(0xe47,2),
(0xe4f,0),
(0xe50,2),
(0xe5a,0),
(0xe5c,3),
(0xe81,1),
(0xe83,3),
(0xe84,1),
(0xe85,3),
(0xe87,1),
(0xe89,3),
(0xe8a,1),
(0xe8b,3),
(0xe8d,1),
(0xe8e,3),
(0xe94,1),
(0xe98,3),
(0xe99,1),
(0xea0,3),
(0xea1,1),
(0xea4,3),
(0xea5,1),
(0xea6,3),
(0xea7,1),
(0xea8,3),
(0xeaa,1),
(0xeac,3),
(0xead,1),
(0xeb1,2),
(0xeb2,1),
(0xeb4,2),
(0xeba,3),
(0xebb,2),
(0xebd,1),
(0xebe,3),
(0xec0,1),
(0xec5,3),
(0xec6,1),
(0xec7,3),
(0xec8,2),
(0xece,3),
(0xed0,2),
(0xeda,3),
(0xedc,1),
(0xee0,3),
(0xf00,1),
(0xf01,0),
(0xf18,2),
(0xf1a,0),
(0xf20,2),
(0xf2a,0),
(0xf35,2),
(0xf36,0),
(0xf37,2),
(0xf38,0),
(0xf39,2),
(0xf3a,0),
(0xf3e,2),
(0xf40,1),
(0xf48,3),
(0xf49,1),
(0xf6d,3),
(0xf71,2),
(0xf85,0),
(0xf86,2),
(0xf88,1),
(0xf8d,2),
(0xf98,3),
(0xf99,2),
(0xfbd,3),
(0xfbe,0),
(0xfc6,2),
(0xfc7,0),
(0xfcd,3),
(0xfce,0),
(0xfdb,3),
(0x1000,1),
(0x102b,2),
(0x103f,1),
(0x1040,2),
(0x104a,0),
(0x1050,1),
(0x1056,2),
(0x105a,1),
(0x105e,2),
(0x1061,1),
(0x1062,2),
(0x1065,1),
(0x1067,2),
(0x106e,1),
(0x1071,2),
(0x1075,1),
(0x1082,2),
(0x108e,1),
(0x108f,2),
(0x109e,0),
(0x10a0,1),
(0x10c6,3),
(0x10c7,1),
(0x10c8,3),
(0x10cd,1),
(0x10ce,3),
(0x10d0,1),
(0x10fb,0),
(0x10fc,1),
(0x1249,3),
(0x124a,1),
(0x124e,3),
(0x1250,1),
(0x1257,3),
(0x1258,1),
(0x1259,3),
(0x125a,1),
(0x125e,3),
(0x1260,1),
(0x1289,3),
(0x128a,1),
(0x128e,3),
(0x1290,1),
(0x12b1,3),
(0x12b2,1),
(0x12b6,3),
(0x12b8,1),
(0x12bf,3),
(0x12c0,1),
(0x12c1,3),
(0x12c2,1),
(0x12c6,3),
(0x12c8,1),
(0x12d7,3),
(0x12d8,1),
(0x1311,3),
(0x1312,1),
(0x1316,3),
(0x1318,1),
(0x135b,3),
(0x135d,2),
(0x1360,0),
(0x1369,2),
(0x1372,0),
(0x137d,3),
(0x1380,1),
(0x1390,0),
(0x139a,3),
(0x13a0,1),
(0x13f6,3),
(0x13f8,1),
(0x13fe,3),
(0x1400,0),
(0x1401,1),
(0x166d,0),
(0x166f,1),
(0x1680,0),
(0x1681,1),
(0x169b,0),
(0x169d,3),
(0x16a0,1),
(0x16eb,0),
(0x16ee,1),
(0x16f9,3),
(0x1700,1),
(0x170d,3),
(0x170e,1),
(0x1712,2),
(0x1715,3),
(0x1720,1),
(0x1732,2),
(0x1735,0),
(0x1737,3),
(0x1740,1),
(0x1752,2),
(0x1754,3),
(0x1760,1),
(0x176d,3),
(0x176e,1),
(0x1771,3),
(0x1772,2),
(0x1774,3),
(0x1780,1),
(0x17b4,2),
(0x17d4,0),
(0x17d7,1),
(0x17d8,0),
(0x17dc,1),
(0x17dd,2),
(0x17de,3),
(0x17e0,2),
(0x17ea,3),
(0x17f0,0),
(0x17fa,3),
(0x1800,0),
(0x180b,2),
(0x180e,0),
(0x180f,3),
(0x1810,2),
(0x181a,3),
(0x1820,1),
(0x1878,3),
(0x1880,1),
(0x18a9,2),
(0x18aa,1),
(0x18ab,3),
(0x18b0,1),
(0x18f6,3),
(0x1900,1),
(0x191f,3),
(0x1920,2),
(0x192c,3),
(0x1930,2),
(0x193c,3),
(0x1940,0),
(0x1941,3),
(0x1944,0),
(0x1946,2),
(0x1950,1),
(0x196e,3),
(0x1970,1),
(0x1975,3),
(0x1980,1),
(0x19ac,3),
(0x19b0,1),
(0x19ca,3),
(0x19d0,2),
(0x19db,3),
(0x19de,0),
(0x1a00,1),
(0x1a17,2),
(0x1a1c,3),
(0x1a1e,0),
(0x1a20,1),
(0x1a55,2),
(0x1a5f,3),
(0x1a60,2),
(0x1a7d,3),
(0x1a7f,2),
(0x1a8a,3),
(0x1a90,2),
(0x1a9a,3),
(0x1aa0,0),
(0x1aa7,1),
(0x1aa8,0),
(0x1aae,3),
(0x1ab0,2),
(0x1abe,0),
(0x1abf,3),
(0x1b00,2),
(0x1b05,1),
(0x1b34,2),
(0x1b45,1),
(0x1b4c,3),
(0x1b50,2),
(0x1b5a,0),
(0x1b6b,2),
(0x1b74,0),
(0x1b7f,3),
(0x1b80,2),
(0x1b83,1),
(0x1ba1,2),
(0x1bae,1),
(0x1bb0,2),
(0x1bba,1),
(0x1be6,2),
(0x1bf4,3),
(0x1bfc,0),
(0x1c00,1),
(0x1c24,2),
(0x1c38,3),
(0x1c3b,0),
(0x1c40,2),
(0x1c4a,3),
(0x1c4d,1),
(0x1c50,2),
(0x1c5a,1),
(0x1c7e,0),
(0x1c80,3),
(0x1cc0,0),
(0x1cc8,3),
(0x1cd0,2),
(0x1cd3,0),
(0x1cd4,2),
(0x1ce9,1),
(0x1ced,2),
(0x1cee,1),
(0x1cf4,2),
(0x1cf5,1),
(0x1cf7,3),
(0x1cf8,2),
(0x1cfa,3),
(0x1d00,1),
(0x1dc0,2),
(0x1df6,3),
(0x1dfc,2),
(0x1e00,1),
(0x1f16,3),
(0x1f18,1),
(0x1f1e,3),
(0x1f20,1),
(0x1f46,3),
(0x1f48,1),
(0x1f4e,3),
(0x1f50,1),
(0x1f58,3),
(0x1f59,1),
(0x1f5a,3),
(0x1f5b,1),
(0x1f5c,3),
(0x1f5d,1),
(0x1f5e,3),
(0x1f5f,1),
(0x1f7e,3),
(0x1f80,1),
(0x1fb5,3),
(0x1fb6,1),
(0x1fbd,0),
(0x1fbe,1),
(0x1fbf,0),
(0x1fc2,1),
(0x1fc5,3),
(0x1fc6,1),
(0x1fcd,0),
(0x1fd0,1),
(0x1fd4,3),
(0x1fd6,1),
(0x1fdc,3),
(0x1fdd,0),
(0x1fe0,1),
(0x1fed,0),
(0x1ff0,3),
(0x1ff2,1),
(0x1ff5,3),
(0x1ff6,1),
(0x1ffd,0),
(0x1fff,3),
(0x2000,0),
(0x203f,2),
(0x2041,0),
(0x2054,2),
(0x2055,0),
(0x2065,3),
(0x2066,0),
(0x2071,1),
(0x2072,3),
(0x2074,0),
(0x207f,1),
(0x2080,0),
(0x208f,3),
(0x2090,1),
(0x209d,3),
(0x20a0,0),
(0x20c1,3),
(0x20d0,2),
(0x20dd,0),
(0x20e1,2),
(0x20e2,0),
(0x20e5,2),
(0x20f1,3),
(0x2100,0),
(0x2102,1),
(0x2103,0),
(0x2107,1),
(0x2108,0),
(0x210a,1),
(0x2114,0),
(0x2115,1),
(0x2116,0),
(0x2118,1),
(0x211e,0),
(0x2124,1),
(0x2125,0),
(0x2126,1),
(0x2127,0),
(0x2128,1),
(0x2129,0),
(0x212a,1),
(0x213a,0),
(0x213c,1),
(0x2140,0),
(0x2145,1),
(0x214a,0),
(0x214e,1),
(0x214f,0),
(0x2160,1),
(0x2189,0),
(0x218c,3),
(0x2190,0),
(0x2427,3),
(0x2440,0),
(0x244b,3),
(0x2460,0),
(0x2b74,3),
(0x2b76,0),
(0x2b96,3),
(0x2b97,0),
(0x2c00,1),
(0x2c2f,3),
(0x2c30,1),
(0x2c5f,3),
(0x2c60,1),
(0x2ce5,0),
(0x2ceb,1),
(0x2cef,2),
(0x2cf2,1),
(0x2cf4,3),
(0x2cf9,0),
(0x2d00,1),
(0x2d26,3),
(0x2d27,1),
(0x2d28,3),
(0x2d2d,1),
(0x2d2e,3),
(0x2d30,1),
(0x2d68,3),
(0x2d6f,1),
(0x2d70,0),
(0x2d71,3),
(0x2d7f,2),
(0x2d80,1),
(0x2d97,3),
(0x2da0,1),
(0x2da7,3),
(0x2da8,1),
(0x2daf,3),
(0x2db0,1),
(0x2db7,3),
(0x2db8,1),
(0x2dbf,3),
(0x2dc0,1),
(0x2dc7,3),
(0x2dc8,1),
(0x2dcf,3),
(0x2dd0,1),
(0x2dd7,3),
(0x2dd8,1),
(0x2ddf,3),
(0x2de0,2),
(0x2e00,0),
(0x2e5e,3),
(0x2e80,0),
(0x2e9a,3),
(0x2e9b,0),
(0x2ef4,3),
(0x2f00,0),
(0x2fd6,3),
(0x2ff0,0),
(0x2ffc,3),
(0x3000,0),
(0x3005,1),
(0x3008,0),
(0x3021,1),
(0x302a,2),
(0x3030,0),
(0x3031,1),
(0x3036,0),
(0x3038,1),
(0x303d,0),
(0x3040,3),
(0x3041,1),
(0x3097,3),
(0x3099,2),
(0x309b,1),
(0x30a0,0),
(0x30a1,1),
(0x30fb,0),
(0x30fc,1),
(0x3100,3),
(0x3105,1),
(0x312e,3),
(0x3131,1),
(0x318f,3),
(0x3190,0),
(0x31a0,1),
(0x31bb,3),
(0x31c0,0),
(0x31e4,3),
(0x31f0,1),
(0x3200,0),
(0x321f,3),
(0x3220,0),
(0x3400,1),
(0x4db6,3),
(0x4dc0,0),
(0x4e00,1),
(0x9fd6,3),
(0xa000,1),
(0xa48d,3),
(0xa490,0),
(0xa4c7,3),
(0xa4d0,1),
(0xa4fe,0),
(0xa500,1),
(0xa60d,0),
(0xa610,1),
(0xa620,2),
(0xa62a,1),
(0xa62c,3),
(0xa640,1),
(0xa66f,2),
(0xa670,0),
(0xa674,2),
(0xa67e,0),
(0xa67f,1),
(0xa69e,2),
(0xa6a0,1),
(0xa6f0,2),
(0xa6f2,0),
(0xa6f8,3),
(0xa700,0),
(0xa717,1),
(0xa720,0),
(0xa722,1),
(0xa789,0),
(0xa78b,1),
(0xa7ae,3),
(0xa7b0,1),
(0xa7b8,3),
(0xa7f7,1),
(0xa802,2),
(0xa803,1),
(0xa806,2),
(0xa807,1),
(0xa80b,2),
(0xa80c,1),
(0xa823,2),
(0xa828,0),
(0xa82c,3),
(0xa830,0),
(0xa83a,3),
(0xa840,1),
(0xa874,0),
(0xa878,3),
(0xa880,2),
(0xa882,1),
(0xa8b4,2),
(0xa8c5,3),
(0xa8ce,0),
(0xa8d0,2),
(0xa8da,3),
(0xa8e0,2),
(0xa8f2,1),
(0xa8f8,0),
(0xa8fb,1),
(0xa8fc,0),
(0xa8fd,1),
(0xa8fe,3),
(0xa900,2),
(0xa90a,1),
(0xa926,2),
(0xa92e,0),
(0xa930,1),
(0xa947,2),
(0xa954,3),
(0xa95f,0),
(0xa960,1),
(0xa97d,3),
(0xa980,2),
(0xa984,1),
(0xa9b3,2),
(0xa9c1,0),
(0xa9ce,3),
(0xa9cf,1),
(0xa9d0,2),
(0xa9da,3),
(0xa9de,0),
(0xa9e0,1),
(0xa9e5,2),
(0xa9e6,1),
(0xa9f0,2),
(0xa9fa,1),
(0xa9ff,3),
(0xaa00,1),
(0xaa29,2),
(0xaa37,3),
(0xaa40,1),
(0xaa43,2),
(0xaa44,1),
(0xaa4c,2),
(0xaa4e,3),
(0xaa50,2),
(0xaa5a,3),
(0xaa5c,0),
(0xaa60,1),
(0xaa77,0),
(0xaa7a,1),
(0xaa7b,2),
(0xaa7e,1),
(0xaab0,2),
(0xaab1,1),
(0xaab2,2),
(0xaab5,1),
(0xaab7,2),
(0xaab9,1),
(0xaabe,2),
(0xaac0,1),
(0xaac1,2),
(0xaac2,1),
(0xaac3,3),
(0xaadb,1),
(0xaade,0),
(0xaae0,1),
(0xaaeb,2),
(0xaaf0,0),
(0xaaf2,1),
(0xaaf5,2),
(0xaaf7,3),
(0xab01,1),
(0xab07,3),
(0xab09,1),
(0xab0f,3),
(0xab11,1),
(0xab17,3),
(0xab20,1),
(0xab27,3),
(0xab28,1),
(0xab2f,3),
(0xab30,1),
(0xab5b,0),
(0xab5c,1),
(0xab66,3),
(0xab6a,0),
(0xab6c,3),
(0xab70,1),
(0xabe3,2),
(0xabeb,0),
(0xabec,2),
(0xabee,3),
(0xabf0,2),
(0xabfa,3),
(0xac00,1),
(0xd7a4,3),
(0xd7b0,1),
(0xd7c7,3),
(0xd7cb,1),
(0xd7fc,3),
(0xd800,0),
(0xf900,1),
(0xfa6e,3),
(0xfa70,1),
(0xfada,3),
(0xfb00,1),
(0xfb07,3),
(0xfb13,1),
(0xfb18,3),
(0xfb1d,1),
(0xfb1e,2),
(0xfb1f,1),
(0xfb29,0),
(0xfb2a,1),
(0xfb37,3),
(0xfb38,1),
(0xfb3d,3),
(0xfb3e,1),
(0xfb3f,3),
(0xfb40,1),
(0xfb42,3),
(0xfb43,1),
(0xfb45,3),
(0xfb46,1),
(0xfbb2,0),
(0xfbc3,3),
(0xfbd3,1),
(0xfd3e,0),
(0xfd50,1),
(0xfd90,3),
(0xfd92,1),
(0xfdc8,3),
(0xfdcf,0),
(0xfdd0,3),
(0xfdf0,1),
(0xfdfc,0),
(0xfe00,2),
(0xfe10,0),
(0xfe1a,3),
(0xfe20,2),
(0xfe30,0),
(0xfe33,2),
(0xfe35,0),
(0xfe4d,2),
(0xfe50,0),
(0xfe53,3),
(0xfe54,0),
(0xfe67,3),
(0xfe68,0),
(0xfe6c,3),
(0xfe70,1),
(0xfe75,3),
(0xfe76,1),
(0xfefd,3),
(0xfeff,0),
(0xff00,3),
(0xff01,0),
(0xff10,2),
(0xff1a,0),
(0xff21,1),
(0xff3b,0),
(0xff3f,2),
(0xff40,0),
(0xff41,1),
(0xff5b,0),
(0xff66,1),
(0xffbf,3),
(0xffc2,1),
(0xffc8,3),
(0xffca,1),
(0xffd0,3),
(0xffd2,1),
(0xffd8,3),
(0xffda,1),
(0xffdd,3),
(0xffe0,0),
(0xffe7,3),
(0xffe8,0),
(0xffef,3),
(0xfff9,0),
(0xfffe,3),
(0x10000,1),
(0x1000c,3),
(0x1000d,1),
(0x10027,3),
(0x10028,1),
(0x1003b,3),
(0x1003c,1),
(0x1003e,3),
(0x1003f,1),
(0x1004e,3),
(0x10050,1),
(0x1005e,3),
(0x10080,1),
(0x100fb,3),
(0x10100,0),
(0x10103,3),
(0x10107,0),
(0x10134,3),
(0x10137,0),
(0x10140,1),
(0x10175,0),
(0x1018f,3),
(0x10190,0),
(0x1019d,3),
(0x101a0,0),
(0x101a1,3),
(0x101d0,0),
(0x101fd,2),
(0x101fe,3),
(0x10280,1),
(0x1029d,3),
(0x102a0,1),
(0x102d1,3),
(0x102e0,2),
(0x102e1,0),
(0x102fc,3),
(0x10300,1),
(0x10320,0),
(0x10324,3),
(0x10330,1),
(0x1034b,3),
(0x10350,1),
(0x10376,2),
(0x1037b,3),
(0x10380,1),
(0x1039e,3),
(0x1039f,0),
(0x103a0,1),
(0x103c4,3),
(0x103c8,1),
(0x103d0,0),
(0x103d1,1),
(0x103d6,3),
(0x10400,1),
(0x1049e,3),
(0x104a0,2),
(0x104aa,3),
(0x10500,1),
(0x10528,3),
(0x10530,1),
(0x10564,3),
(0x1056f,0),
(0x10570,3),
(0x10600,1),
(0x10737,3),
(0x10740,1),
(0x10756,3),
(0x10760,1),
(0x10768,3),
(0x10800,1),
(0x10806,3),
(0x10808,1),
(0x10809,3),
(0x1080a,1),
(0x10836,3),
(0x10837,1),
(0x10839,3),
(0x1083c,1),
(0x1083d,3),
(0x1083f,1),
(0x10856,3),
(0x10857,0),
(0x10860,1),
(0x10877,0),
(0x10880,1),
(0x1089f,3),
(0x108a7,0),
(0x108b0,3),
(0x108e0,1),
(0x108f3,3),
(0x108f4,1),
(0x108f6,3),
(0x108fb,0),
(0x10900,1),
(0x10916,0),
(0x1091c,3),
(0x1091f,0),
(0x10920,1),
(0x1093a,3),
(0x1093f,0),
(0x10940,3),
(0x10980,1),
(0x109b8,3),
(0x109bc,0),
(0x109be,1),
(0x109c0,0),
(0x109d0,3),
(0x109d2,0),
(0x10a00,1),
(0x10a01,2),
(0x10a04,3),
(0x10a05,2),
(0x10a07,3),
(0x10a0c,2),
(0x10a10,1),
(0x10a14,3),
(0x10a15,1),
(0x10a18,3),
(0x10a19,1),
(0x10a34,3),
(0x10a38,2),
(0x10a3b,3),
(0x10a3f,2),
(0x10a40,0),
(0x10a49,3),
(0x10a50,0),
(0x10a59,3),
(0x10a60,1),
(0x10a7d,0),
(0x10a80,1),
(0x10a9d,0),
(0x10aa0,3),
(0x10ac0,1),
(0x10ac8,0),
(0x10ac9,1),
(0x10ae5,2),
(0x10ae7,3),
(0x10aeb,0),
(0x10af7,3),
(0x10b00,1),
(0x10b36,3),
(0x10b39,0),
(0x10b40,1),
(0x10b56,3),
(0x10b58,0),
(0x10b60,1),
(0x10b73,3),
(0x10b78,0),
(0x10b80,1),
(0x10b92,3),
(0x10b99,0),
(0x10b9d,3),
(0x10ba9,0),
(0x10bb0,3),
(0x10c00,1),
(0x10c49,3),
(0x10c80,1),
(0x10cb3,3),
(0x10cc0,1),
(0x10cf3,3),
(0x10cfa,0),
(0x10d00,3),
(0x10e60,0),
(0x10e7f,3),
(0x10ead,0),
(0x10eae,3),
(0x10f1d,0),
(0x10f27,3),
(0x10f51,0),
(0x10f5a,3),
(0x10f86,0),
(0x10f8a,3),
(0x10fc5,0),
(0x10fcc,3),
(0x11000,2),
(0x11003,1),
(0x11038,2),
(0x11047,0),
(0x1104e,3),
(0x11052,0),
(0x11066,2),
(0x11070,3),
(0x1107f,2),
(0x11083,1),
(0x110b0,2),
(0x110bb,0),
(0x110c2,3),
(0x110cd,0),
(0x110ce,3),
(0x110d0,1),
(0x110e9,3),
(0x110f0,2),
(0x110fa,3),
(0x11100,2),
(0x11103,1),
(0x11127,2),
(0x11135,3),
(0x11136,2),
(0x11140,0),
(0x11144,3),
(0x11150,1),
(0x11173,2),
(0x11174,0),
(0x11176,1),
(0x11177,3),
(0x11180,2),
(0x11183,1),
(0x111b3,2),
(0x111c1,1),
(0x111c5,0),
(0x111c9,2),
(0x111cd,0),
(0x111ce,3),
(0x111d0,2),
(0x111da,1),
(0x111db,0),
(0x111dc,1),
(0x111dd,0),
(0x111e0,3),
(0x111e1,0),
(0x111f5,3),
(0x11200,1),
(0x11212,3),
(0x11213,1),
(0x1122c,2),
(0x11238,0),
(0x1123e,3),
(0x11280,1),
(0x11287,3),
(0x11288,1),
(0x11289,3),
(0x1128a,1),
(0x1128e,3),
(0x1128f,1),
(0x1129e,3),
(0x1129f,1),
(0x112a9,0),
(0x112aa,3),
(0x112b0,1),
(0x112df,2),
(0x112eb,3),
(0x112f0,2),
(0x112fa,3),
(0x11300,2),
(0x11304,3),
(0x11305,1),
(0x1130d,3),
(0x1130f,1),
(0x11311,3),
(0x11313,1),
(0x11329,3),
(0x1132a,1),
(0x11331,3),
(0x11332,1),
(0x11334,3),
(0x11335,1),
(0x1133a,3),
(0x1133c,2),
(0x1133d,1),
(0x1133e,2),
(0x11345,3),
(0x11347,2),
(0x11349,3),
(0x1134b,2),
(0x1134e,3),
(0x11350,1),
(0x11351,3),
(0x11357,2),
(0x11358,3),
(0x1135d,1),
(0x11362,2),
(0x11364,3),
(0x11366,2),
(0x1136d,3),
(0x11370,2),
(0x11375,3),
(0x1144b,0),
(0x11450,3),
(0x1145a,0),
(0x1145c,3),
(0x1145d,0),
(0x1145e,3),
(0x11480,1),
(0x114b0,2),
(0x114c4,1),
(0x114c6,0),
(0x114c7,1),
(0x114c8,3),
(0x114d0,2),
(0x114da,3),
(0x11580,1),
(0x115af,2),
(0x115b6,3),
(0x115b8,2),
(0x115c1,0),
(0x115d8,1),
(0x115dc,2),
(0x115de,3),
(0x11600,1),
(0x11630,2),
(0x11641,0),
(0x11644,1),
(0x11645,3),
(0x11650,2),
(0x1165a,3),
(0x11660,0),
(0x1166d,3),
(0x11680,1),
(0x116ab,2),
(0x116b8,3),
(0x116b9,0),
(0x116ba,3),
(0x116c0,2),
(0x116ca,3),
(0x11700,1),
(0x1171a,3),
(0x1171d,2),
(0x1172c,3),
(0x11730,2),
(0x1173a,0),
(0x11740,3),
(0x1183b,0),
(0x1183c,3),
(0x118a0,1),
(0x118e0,2),
(0x118ea,0),
(0x118f3,3),
(0x118ff,1),
(0x11900,3),
(0x11944,0),
(0x11947,3),
(0x119e2,0),
(0x119e3,3),
(0x11a3f,0),
(0x11a47,3),
(0x11a9a,0),
(0x11a9d,3),
(0x11a9e,0),
(0x11aa3,3),
(0x11ac0,1),
(0x11af9,3),
(0x11b00,0),
(0x11b0a,3),
(0x11c41,0),
(0x11c46,3),
(0x11c5a,0),
(0x11c6d,3),
(0x11c70,0),
(0x11c72,3),
(0x11ef7,0),
(0x11ef9,3),
(0x11f43,0),
(0x11f50,3),
(0x11fc0,0),
(0x11ff2,3),
(0x11fff,0),
(0x12000,1),
(0x1239a,3),
(0x12400,1),
(0x1246f,3),
(0x12470,0),
(0x12475,3),
(0x12480,1),
(0x12544,3),
(0x12ff1,0),
(0x12ff3,3),
(0x13000,1),
(0x1342f,3),
(0x13430,0),
(0x13440,3),
(0x14400,1),
(0x14647,3),
(0x16800,1),
(0x16a39,3),
(0x16a40,1),
(0x16a5f,3),
(0x16a60,2),
(0x16a6a,3),
(0x16a6e,0),
(0x16a70,3),
(0x16ad0,1),
(0x16aee,3),
(0x16af0,2),
(0x16af5,0),
(0x16af6,3),
(0x16b00,1),
(0x16b30,2),
(0x16b37,0),
(0x16b40,1),
(0x16b44,0),
(0x16b46,3),
(0x16b50,2),
(0x16b5a,3),
(0x16b5b,0),
(0x16b62,3),
(0x16b63,1),
(0x16b78,3),
(0x16b7d,1),
(0x16b90,3),
(0x16e80,0),
(0x16e9b,3),
(0x16f00,1),
(0x16f45,3),
(0x16f50,1),
(0x16f51,2),
(0x16f7f,3),
(0x16f8f,2),
(0x16f93,1),
(0x16fa0,3),
(0x16fe2,0),
(0x16fe3,3),
(0x1b000,1),
(0x1b002,3),
(0x1bc00,1),
(0x1bc6b,3),
(0x1bc70,1),
(0x1bc7d,3),
(0x1bc80,1),
(0x1bc89,3),
(0x1bc90,1),
(0x1bc9a,3),
(0x1bc9c,0),
(0x1bc9d,2),
(0x1bc9f,0),
(0x1bca4,3),
(0x1cf50,0),
(0x1cfc4,3),
(0x1d000,0),
(0x1d0f6,3),
(0x1d100,0),
(0x1d127,3),
(0x1d129,0),
(0x1d165,2),
(0x1d16a,0),
(0x1d16d,2),
(0x1d173,0),
(0x1d17b,2),
(0x1d183,0),
(0x1d185,2),
(0x1d18c,0),
(0x1d1aa,2),
(0x1d1ae,0),
(0x1d1eb,3),
(0x1d200,0),
(0x1d242,2),
(0x1d245,0),
(0x1d246,3),
(0x1d2c0,0),
(0x1d2d4,3),
(0x1d2e0,0),
(0x1d2f4,3),
(0x1d300,0),
(0x1d357,3),
(0x1d360,0),
(0x1d379,3),
(0x1d400,1),
(0x1d455,3),
(0x1d456,1),
(0x1d49d,3),
(0x1d49e,1),
(0x1d4a0,3),
(0x1d4a2,1),
(0x1d4a3,3),
(0x1d4a5,1),
(0x1d4a7,3),
(0x1d4a9,1),
(0x1d4ad,3),
(0x1d4ae,1),
(0x1d4ba,3),
(0x1d4bb,1),
(0x1d4bc,3),
(0x1d4bd,1),
(0x1d4c4,3),
(0x1d4c5,1),
(0x1d506,3),
(0x1d507,1),
(0x1d50b,3),
(0x1d50d,1),
(0x1d515,3),
(0x1d516,1),
(0x1d51d,3),
(0x1d51e,1),
(0x1d53a,3),
(0x1d53b,1),
(0x1d53f,3),
(0x1d540,1),
(0x1d545,3),
(0x1d546,1),
(0x1d547,3),
(0x1d54a,1),
(0x1d551,3),
(0x1d552,1),
(0x1d6a6,3),
(0x1d6a8,1),
(0x1d6c1,0),
(0x1d6c2,1),
(0x1d6db,0),
(0x1d6dc,1),
(0x1d6fb,0),
(0x1d6fc,1),
(0x1d715,0),
(0x1d716,1),
(0x1d735,0),
(0x1d736,1),
(0x1d74f,0),
(0x1d750,1),
(0x1d76f,0),
(0x1d770,1),
(0x1d789,0),
(0x1d78a,1),
(0x1d7a9,0),
(0x1d7aa,1),
(0x1d7c3,0),
(0x1d7c4,1),
(0x1d7cc,3),
(0x1d7ce,2),
(0x1d800,0),
(0x1da00,2),
(0x1da37,0),
(0x1da3b,2),
(0x1da6d,0),
(0x1da75,2),
(0x1da76,0),
(0x1da84,2),
(0x1da85,0),
(0x1da8c,3),
(0x1da9b,2),
(0x1daa0,3),
(0x1daa1,2),
(0x1dab0,3),
(0x1e14f,0),
(0x1e150,3),
(0x1e2ff,0),
(0x1e300,3),
(0x1e800,1),
(0x1e8c5,3),
(0x1e8c7,0),
(0x1e8d0,2),
(0x1e8d7,3),
(0x1e95e,0),
(0x1e960,3),
(0x1ec71,0),
(0x1ecb5,3),
(0x1ed01,0),
(0x1ed3e,3),
(0x1ee00,1),
(0x1ee04,3),
(0x1ee05,1),
(0x1ee20,3),
(0x1ee21,1),
(0x1ee23,3),
(0x1ee24,1),
(0x1ee25,3),
(0x1ee27,1),
(0x1ee28,3),
(0x1ee29,1),
(0x1ee33,3),
(0x1ee34,1),
(0x1ee38,3),
(0x1ee39,1),
(0x1ee3a,3),
(0x1ee3b,1),
(0x1ee3c,3),
(0x1ee42,1),
(0x1ee43,3),
(0x1ee47,1),
(0x1ee48,3),
(0x1ee49,1),
(0x1ee4a,3),
(0x1ee4b,1),
(0x1ee4c,3),
(0x1ee4d,1),
(0x1ee50,3),
(0x1ee51,1),
(0x1ee53,3),
(0x1ee54,1),
(0x1ee55,3),
(0x1ee57,1),
(0x1ee58,3),
(0x1ee59,1),
(0x1ee5a,3),
(0x1ee5b,1),
(0x1ee5c,3),
(0x1ee5d,1),
(0x1ee5e,3),
(0x1ee5f,1),
(0x1ee60,3),
(0x1ee61,1),
(0x1ee63,3),
(0x1ee64,1),
(0x1ee65,3),
(0x1ee67,1),
(0x1ee6b,3),
(0x1ee6c,1),
(0x1ee73,3),
(0x1ee74,1),
(0x1ee78,3),
(0x1ee79,1),
(0x1ee7d,3),
(0x1ee7e,1),
(0x1ee7f,3),
(0x1ee80,1),
(0x1ee8a,3),
(0x1ee8b,1),
(0x1ee9c,3),
(0x1eea1,1),
(0x1eea4,3),
(0x1eea5,1),
(0x1eeaa,3),
(0x1eeab,1),
(0x1eebc,3),
(0x1eef0,0),
(0x1eef2,3),
(0x1f000,0),
(0x1f02c,3),
(0x1f030,0),
(0x1f094,3),
(0x1f0a0,0),
(0x1f0af,3),
(0x1f0b1,0),
(0x1f0c0,3),
(0x1f0c1,0),
(0x1f0d0,3),
(0x1f0d1,0),
(0x1f0f6,3),
(0x1f100,0),
(0x1f1ae,3),
(0x1f1e6,0),
(0x1f203,3),
(0x1f210,0),
(0x1f23c,3),
(0x1f240,0),
(0x1f249,3),
(0x1f250,0),
(0x1f252,3),
(0x1f260,0),
(0x1f266,3),
(0x1f300,0),
(0x1f6d8,3),
(0x1f6dc,0),
(0x1f6ed,3),
(0x1f6f0,0),
(0x1f6fd,3),
(0x1f700,0),
(0x1f777,3),
(0x1f77b,0),
(0x1f7da,3),
(0x1f7e0,0),
(0x1f7ec,3),
(0x1f7f0,0),
(0x1f7f1,3),
(0x1f800,0),
(0x1f80c,3),
(0x1f810,0),
(0x1f848,3),
(0x1f850,0),
(0x1f85a,3),
(0x1f860,0),
(0x1f888,3),
(0x1f890,0),
(0x1f8ae,3),
(0x1f8b0,0),
(0x1f8b2,3),
(0x1f900,0),
(0x1fa54,3),
(0x1fa60,0),
(0x1fa6e,3),
(0x1fa70,0),
(0x1fa7d,3),
(0x1fa80,0),
(0x1fa89,3),
(0x1fa90,0),
(0x1fabe,3),
(0x1fabf,0),
(0x1fac6,3),
(0x1face,0),
(0x1fadc,3),
(0x1fae0,0),
(0x1fae9,3),
(0x1faf0,0),
(0x1faf9,3),
(0x1fb00,0),
(0x1fb93,3),
(0x1fb94,0),
(0x1fbcb,3),
(0x20000,1),
(0x2a6d7,3),
(0x2a700,1),
(0x2b735,3),
(0x2b740,1),
(0x2b81e,3),
(0x2b820,1),
(0x2cea2,3),
(0x2f800,1),
(0x2fa1e,3),
(0xe0001,0),
(0xe0002,3),
(0xe0020,0),
(0xe0080,3),
(0xe0100,2),
(0xe01f0,3),
(0xf0000,0),
(0xffffe,3),
(0x100000,0),
(0x10fffe,3),
];
