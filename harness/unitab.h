// Written by tools/mkunicode.py.
#pragma once
namespace vf {
struct UniRange { unsigned lo, hi, f; };
enum { UK = 1, UALPHA = 2, UDIGIT = 4, UNUM = 8, USPACE = 16, UUPPER = 32, ULOWER = 64, UOTHER = 128, UMARK = 256 };
static const UniRange uniRanges[] = {
{0x0,0x8,0x1},{0x9,0xa,0x11},{0xb,0xb,0x1},{0xc,0xd,0x11},{0xe,0x1f,0x1},{0x20,0x20,0x11},{0x21,0x2f,0x1},{0x30,0x39,0x5},{0x3a,0x40,0x1},{0x41,0x5a,0x23},
{0x5b,0x60,0x1},{0x61,0x7a,0x43},{0x7b,0x9f,0x1},{0xa0,0xa0,0x11},{0xa1,0xa6,0x1},{0xa8,0xa9,0x1},{0xab,0xac,0x1},{0xae,0xb1,0x1},{0xb2,0xb3,0x9},
{0xb4,0xb4,0x1},{0xb5,0xb5,0x43},{0xb7,0xb8,0x1},{0xb9,0xb9,0x9},{0xbb,0xbb,0x1},{0xbc,0xbe,0x9},{0xbf,0xbf,0x1},{0xc0,0xd6,0x23},{0xd7,0xd7,0x1},
{0xd8,0xde,0x23},{0xdf,0xf6,0x43},{0xf7,0xf7,0x1},{0xf8,0xff,0x43},{0x100,0x100,0x23},{0x101,0x101,0x43},{0x102,0x102,0x23},{0x103,0x103,0x43},
{0x104,0x104,0x23},{0x105,0x105,0x43},{0x106,0x106,0x23},{0x107,0x107,0x43},{0x108,0x108,0x23},{0x109,0x109,0x43},{0x10a,0x10a,0x23},{0x10b,0x10b,0x43},
{0x10c,0x10c,0x23},{0x10d,0x10d,0x43},{0x10e,0x10e,0x23},{0x10f,0x10f,0x43},{0x110,0x110,0x23},{0x111,0x111,0x43},{0x112,0x112,0x23},{0x113,0x113,0x43},
{0x114,0x114,0x23},{0x115,0x115,0x43},{0x116,0x116,0x23},{0x117,0x117,0x43},{0x118,0x118,0x23},{0x119,0x119,0x43},{0x11a,0x11a,0x23},{0x11b,0x11b,0x43},
{0x11c,0x11c,0x23},{0x11d,0x11d,0x43},{0x11e,0x11e,0x23},{0x11f,0x11f,0x43},{0x120,0x120,0x23},{0x121,0x121,0x43},{0x122,0x122,0x23},{0x123,0x123,0x43},
{0x124,0x124,0x23},{0x125,0x125,0x43},{0x126,0x126,0x23},{0x127,0x127,0x43},{0x128,0x128,0x23},{0x129,0x129,0x43},{0x12a,0x12a,0x23},{0x12b,0x12b,0x43},
{0x12c,0x12c,0x23},{0x12d,0x12d,0x43},{0x12e,0x12e,0x23},{0x12f,0x12f,0x43},{0x130,0x130,0x23},{0x131,0x131,0x43},{0x132,0x132,0x23},{0x133,0x133,0x43},
{0x134,0x134,0x23},{0x135,0x135,0x43},{0x136,0x136,0x23},{0x137,0x138,0x43},{0x139,0x139,0x23},{0x13a,0x13a,0x43},{0x13b,0x13b,0x23},{0x13c,0x13c,0x43},
{0x13d,0x13d,0x23},{0x13e,0x13e,0x43},{0x13f,0x13f,0x23},{0x140,0x140,0x43},{0x141,0x141,0x23},{0x142,0x142,0x43},{0x143,0x143,0x23},{0x144,0x144,0x43},
{0x145,0x145,0x23},{0x146,0x146,0x43},{0x147,0x147,0x23},{0x148,0x149,0x43},{0x14a,0x14a,0x23},{0x14b,0x14b,0x43},{0x14c,0x14c,0x23},{0x14d,0x14d,0x43},
{0x14e,0x14e,0x23},{0x14f,0x14f,0x43},{0x150,0x150,0x23},{0x151,0x151,0x43},{0x152,0x152,0x23},{0x153,0x153,0x43},{0x154,0x154,0x23},{0x155,0x155,0x43},
{0x156,0x156,0x23},{0x157,0x157,0x43},{0x158,0x158,0x23},{0x159,0x159,0x43},{0x15a,0x15a,0x23},{0x15b,0x15b,0x43},{0x15c,0x15c,0x23},{0x15d,0x15d,0x43},
{0x15e,0x15e,0x23},{0x15f,0x15f,0x43},{0x160,0x160,0x23},{0x161,0x161,0x43},{0x162,0x162,0x23},{0x163,0x163,0x43},{0x164,0x164,0x23},{0x165,0x165,0x43},
{0x166,0x166,0x23},{0x167,0x167,0x43},{0x168,0x168,0x23},{0x169,0x169,0x43},{0x16a,0x16a,0x23},{0x16b,0x16b,0x43},{0x16c,0x16c,0x23},{0x16d,0x16d,0x43},
{0x16e,0x16e,0x23},{0x16f,0x16f,0x43},{0x170,0x170,0x23},{0x171,0x171,0x43},{0x172,0x172,0x23},{0x173,0x173,0x43},{0x174,0x174,0x23},{0x175,0x175,0x43},
{0x176,0x176,0x23},{0x177,0x177,0x43},{0x178,0x179,0x23},{0x17a,0x17a,0x43},{0x17b,0x17b,0x23},{0x17c,0x17c,0x43},{0x17d,0x17d,0x23},{0x17e,0x180,0x43},
{0x181,0x182,0x23},{0x183,0x183,0x43},{0x184,0x184,0x23},{0x185,0x185,0x43},{0x186,0x187,0x23},{0x188,0x188,0x43},{0x189,0x18b,0x23},{0x18c,0x18d,0x43},
{0x18e,0x191,0x23},{0x192,0x192,0x43},{0x193,0x194,0x23},{0x195,0x195,0x43},{0x196,0x198,0x23},{0x199,0x19b,0x43},{0x19c,0x19d,0x23},{0x19e,0x19e,0x43},
{0x19f,0x1a0,0x23},{0x1a1,0x1a1,0x43},{0x1a2,0x1a2,0x23},{0x1a3,0x1a3,0x43},{0x1a4,0x1a4,0x23},{0x1a5,0x1a5,0x43},{0x1a6,0x1a7,0x23},{0x1a8,0x1a8,0x43},
{0x1a9,0x1a9,0x23},{0x1aa,0x1ab,0x43},{0x1ac,0x1ac,0x23},{0x1ad,0x1ad,0x43},{0x1ae,0x1af,0x23},{0x1b0,0x1b0,0x43},{0x1b1,0x1b3,0x23},{0x1b4,0x1b4,0x43},
{0x1b5,0x1b5,0x23},{0x1b6,0x1b6,0x43},{0x1b7,0x1b8,0x23},{0x1b9,0x1ba,0x43},{0x1bb,0x1bb,0x83},{0x1bc,0x1bc,0x23},{0x1bd,0x1bf,0x43},{0x1c0,0x1c3,0x83},
{0x1c4,0x1c4,0x23},{0x1c5,0x1c5,0x3},{0x1c6,0x1c6,0x43},{0x1c7,0x1c7,0x23},{0x1c8,0x1c8,0x3},{0x1c9,0x1c9,0x43},{0x1ca,0x1ca,0x23},{0x1cb,0x1cb,0x3},
{0x1cc,0x1cc,0x43},{0x1cd,0x1cd,0x23},{0x1ce,0x1ce,0x43},{0x1cf,0x1cf,0x23},{0x1d0,0x1d0,0x43},{0x1d1,0x1d1,0x23},{0x1d2,0x1d2,0x43},{0x1d3,0x1d3,0x23},
{0x1d4,0x1d4,0x43},{0x1d5,0x1d5,0x23},{0x1d6,0x1d6,0x43},{0x1d7,0x1d7,0x23},{0x1d8,0x1d8,0x43},{0x1d9,0x1d9,0x23},{0x1da,0x1da,0x43},{0x1db,0x1db,0x23},
{0x1dc,0x1dd,0x43},{0x1de,0x1de,0x23},{0x1df,0x1df,0x43},{0x1e0,0x1e0,0x23},{0x1e1,0x1e1,0x43},{0x1e2,0x1e2,0x23},{0x1e3,0x1e3,0x43},{0x1e4,0x1e4,0x23},
{0x1e5,0x1e5,0x43},{0x1e6,0x1e6,0x23},{0x1e7,0x1e7,0x43},{0x1e8,0x1e8,0x23},{0x1e9,0x1e9,0x43},{0x1ea,0x1ea,0x23},{0x1eb,0x1eb,0x43},{0x1ec,0x1ec,0x23},
{0x1ed,0x1ed,0x43},{0x1ee,0x1ee,0x23},{0x1ef,0x1f0,0x43},{0x1f1,0x1f1,0x23},{0x1f2,0x1f2,0x3},{0x1f3,0x1f3,0x43},{0x1f4,0x1f4,0x23},{0x1f5,0x1f5,0x43},
{0x1f6,0x1f8,0x23},{0x1f9,0x1f9,0x43},{0x1fa,0x1fa,0x23},{0x1fb,0x1fb,0x43},{0x1fc,0x1fc,0x23},{0x1fd,0x1fd,0x43},{0x1fe,0x1fe,0x23},{0x1ff,0x1ff,0x43},
{0x200,0x200,0x23},{0x201,0x201,0x43},{0x202,0x202,0x23},{0x203,0x203,0x43},{0x204,0x204,0x23},{0x205,0x205,0x43},{0x206,0x206,0x23},{0x207,0x207,0x43},
{0x208,0x208,0x23},{0x209,0x209,0x43},{0x20a,0x20a,0x23},{0x20b,0x20b,0x43},{0x20c,0x20c,0x23},{0x20d,0x20d,0x43},{0x20e,0x20e,0x23},{0x20f,0x20f,0x43},
{0x210,0x210,0x23},{0x211,0x211,0x43},{0x212,0x212,0x23},{0x213,0x213,0x43},{0x214,0x214,0x23},{0x215,0x215,0x43},{0x216,0x216,0x23},{0x217,0x217,0x43},
{0x218,0x218,0x23},{0x219,0x219,0x43},{0x21a,0x21a,0x23},{0x21b,0x21b,0x43},{0x21c,0x21c,0x23},{0x21d,0x21d,0x43},{0x21e,0x21e,0x23},{0x21f,0x21f,0x43},
{0x220,0x220,0x23},{0x222,0x222,0x23},{0x223,0x223,0x43},{0x224,0x224,0x23},{0x225,0x225,0x43},{0x226,0x226,0x23},{0x227,0x227,0x43},{0x228,0x228,0x23},
{0x229,0x229,0x43},{0x22a,0x22a,0x23},{0x22b,0x22b,0x43},{0x22c,0x22c,0x23},{0x22d,0x22d,0x43},{0x22e,0x22e,0x23},{0x22f,0x22f,0x43},{0x230,0x230,0x23},
{0x231,0x231,0x43},{0x232,0x232,0x23},{0x233,0x233,0x43},{0x250,0x293,0x43},{0x295,0x2ad,0x43},{0x2b0,0x2b8,0x3},{0x2bb,0x2c1,0x3},{0x2c2,0x2c5,0x1},
{0x2d0,0x2d1,0x3},{0x2d2,0x2df,0x1},{0x2e0,0x2e4,0x3},{0x2e5,0x2eb,0x1},{0x2ed,0x2ed,0x1},{0x2ee,0x2ee,0x3},{0x300,0x34f,0x101},{0x360,0x36f,0x101},
{0x375,0x375,0x1},{0x37a,0x37a,0x3},{0x37e,0x37e,0x1},{0x384,0x385,0x1},{0x386,0x386,0x23},{0x387,0x387,0x1},{0x388,0x38a,0x23},{0x38c,0x38c,0x23},
{0x38e,0x38f,0x23},{0x390,0x390,0x43},{0x391,0x3a1,0x23},{0x3a3,0x3ab,0x23},{0x3ac,0x3ce,0x43},{0x3d0,0x3d1,0x43},{0x3d2,0x3d4,0x23},{0x3d5,0x3d7,0x43},
{0x3d8,0x3d8,0x23},{0x3d9,0x3d9,0x43},{0x3da,0x3da,0x23},{0x3db,0x3db,0x43},{0x3dc,0x3dc,0x23},{0x3dd,0x3dd,0x43},{0x3de,0x3de,0x23},{0x3df,0x3df,0x43},
{0x3e0,0x3e0,0x23},{0x3e1,0x3e1,0x43},{0x3e2,0x3e2,0x23},{0x3e3,0x3e3,0x43},{0x3e4,0x3e4,0x23},{0x3e5,0x3e5,0x43},{0x3e6,0x3e6,0x23},{0x3e7,0x3e7,0x43},
{0x3e8,0x3e8,0x23},{0x3e9,0x3e9,0x43},{0x3ea,0x3ea,0x23},{0x3eb,0x3eb,0x43},{0x3ec,0x3ec,0x23},{0x3ed,0x3ed,0x43},{0x3ee,0x3ee,0x23},{0x3ef,0x3f3,0x43},
{0x3f4,0x3f4,0x23},{0x3f5,0x3f5,0x43},{0x3f6,0x3f6,0x1},{0x400,0x42f,0x23},{0x430,0x45f,0x43},{0x460,0x460,0x23},{0x461,0x461,0x43},{0x462,0x462,0x23},
{0x463,0x463,0x43},{0x464,0x464,0x23},{0x465,0x465,0x43},{0x466,0x466,0x23},{0x467,0x467,0x43},{0x468,0x468,0x23},{0x469,0x469,0x43},{0x46a,0x46a,0x23},
{0x46b,0x46b,0x43},{0x46c,0x46c,0x23},{0x46d,0x46d,0x43},{0x46e,0x46e,0x23},{0x46f,0x46f,0x43},{0x470,0x470,0x23},{0x471,0x471,0x43},{0x472,0x472,0x23},
{0x473,0x473,0x43},{0x474,0x474,0x23},{0x475,0x475,0x43},{0x476,0x476,0x23},{0x477,0x477,0x43},{0x478,0x478,0x23},{0x479,0x479,0x43},{0x47a,0x47a,0x23},
{0x47b,0x47b,0x43},{0x47c,0x47c,0x23},{0x47d,0x47d,0x43},{0x47e,0x47e,0x23},{0x47f,0x47f,0x43},{0x480,0x480,0x23},{0x481,0x481,0x43},{0x482,0x482,0x1},
{0x483,0x486,0x101},{0x488,0x489,0x1},{0x48a,0x48a,0x23},{0x48b,0x48b,0x43},{0x48c,0x48c,0x23},{0x48d,0x48d,0x43},{0x48e,0x48e,0x23},{0x48f,0x48f,0x43},
{0x490,0x490,0x23},{0x491,0x491,0x43},{0x492,0x492,0x23},{0x493,0x493,0x43},{0x494,0x494,0x23},{0x495,0x495,0x43},{0x496,0x496,0x23},{0x497,0x497,0x43},
{0x498,0x498,0x23},{0x499,0x499,0x43},{0x49a,0x49a,0x23},{0x49b,0x49b,0x43},{0x49c,0x49c,0x23},{0x49d,0x49d,0x43},{0x49e,0x49e,0x23},{0x49f,0x49f,0x43},
{0x4a0,0x4a0,0x23},{0x4a1,0x4a1,0x43},{0x4a2,0x4a2,0x23},{0x4a3,0x4a3,0x43},{0x4a4,0x4a4,0x23},{0x4a5,0x4a5,0x43},{0x4a6,0x4a6,0x23},{0x4a7,0x4a7,0x43},
{0x4a8,0x4a8,0x23},{0x4a9,0x4a9,0x43},{0x4aa,0x4aa,0x23},{0x4ab,0x4ab,0x43},{0x4ac,0x4ac,0x23},{0x4ad,0x4ad,0x43},{0x4ae,0x4ae,0x23},{0x4af,0x4af,0x43},
{0x4b0,0x4b0,0x23},{0x4b1,0x4b1,0x43},{0x4b2,0x4b2,0x23},{0x4b3,0x4b3,0x43},{0x4b4,0x4b4,0x23},{0x4b5,0x4b5,0x43},{0x4b6,0x4b6,0x23},{0x4b7,0x4b7,0x43},
{0x4b8,0x4b8,0x23},{0x4b9,0x4b9,0x43},{0x4ba,0x4ba,0x23},{0x4bb,0x4bb,0x43},{0x4bc,0x4bc,0x23},{0x4bd,0x4bd,0x43},{0x4be,0x4be,0x23},{0x4bf,0x4bf,0x43},
{0x4c0,0x4c1,0x23},{0x4c2,0x4c2,0x43},{0x4c3,0x4c3,0x23},{0x4c4,0x4c4,0x43},{0x4c5,0x4c5,0x23},{0x4c6,0x4c6,0x43},{0x4c7,0x4c7,0x23},{0x4c8,0x4c8,0x43},
{0x4c9,0x4c9,0x23},{0x4ca,0x4ca,0x43},{0x4cb,0x4cb,0x23},{0x4cc,0x4cc,0x43},{0x4cd,0x4cd,0x23},{0x4ce,0x4ce,0x43},{0x4d0,0x4d0,0x23},{0x4d1,0x4d1,0x43},
{0x4d2,0x4d2,0x23},{0x4d3,0x4d3,0x43},{0x4d4,0x4d4,0x23},{0x4d5,0x4d5,0x43},{0x4d6,0x4d6,0x23},{0x4d7,0x4d7,0x43},{0x4d8,0x4d8,0x23},{0x4d9,0x4d9,0x43},
{0x4da,0x4da,0x23},{0x4db,0x4db,0x43},{0x4dc,0x4dc,0x23},{0x4dd,0x4dd,0x43},{0x4de,0x4de,0x23},{0x4df,0x4df,0x43},{0x4e0,0x4e0,0x23},{0x4e1,0x4e1,0x43},
{0x4e2,0x4e2,0x23},{0x4e3,0x4e3,0x43},{0x4e4,0x4e4,0x23},{0x4e5,0x4e5,0x43},{0x4e6,0x4e6,0x23},{0x4e7,0x4e7,0x43},{0x4e8,0x4e8,0x23},{0x4e9,0x4e9,0x43},
{0x4ea,0x4ea,0x23},{0x4eb,0x4eb,0x43},{0x4ec,0x4ec,0x23},{0x4ed,0x4ed,0x43},{0x4ee,0x4ee,0x23},{0x4ef,0x4ef,0x43},{0x4f0,0x4f0,0x23},{0x4f1,0x4f1,0x43},
{0x4f2,0x4f2,0x23},{0x4f3,0x4f3,0x43},{0x4f4,0x4f4,0x23},{0x4f5,0x4f5,0x43},{0x4f8,0x4f8,0x23},{0x4f9,0x4f9,0x43},{0x500,0x500,0x23},{0x501,0x501,0x43},
{0x502,0x502,0x23},{0x503,0x503,0x43},{0x504,0x504,0x23},{0x505,0x505,0x43},{0x506,0x506,0x23},{0x507,0x507,0x43},{0x508,0x508,0x23},{0x509,0x509,0x43},
{0x50a,0x50a,0x23},{0x50b,0x50b,0x43},{0x50c,0x50c,0x23},{0x50d,0x50d,0x43},{0x50e,0x50e,0x23},{0x50f,0x50f,0x43},{0x531,0x556,0x23},{0x559,0x559,0x3},
{0x55a,0x55f,0x1},{0x561,0x587,0x43},{0x589,0x58a,0x1},{0x591,0x5a1,0x101},{0x5a3,0x5b9,0x101},{0x5bb,0x5bd,0x101},{0x5bf,0x5bf,0x101},{0x5c0,0x5c0,0x1},
{0x5c1,0x5c2,0x101},{0x5c3,0x5c3,0x1},{0x5c4,0x5c4,0x101},{0x5d0,0x5ea,0x83},{0x5f0,0x5f2,0x83},{0x5f3,0x5f4,0x1},{0x60c,0x60c,0x1},{0x61b,0x61b,0x1},
{0x61f,0x61f,0x1},{0x621,0x63a,0x83},{0x640,0x640,0x3},{0x641,0x64a,0x83},{0x64b,0x655,0x101},{0x660,0x669,0x5},{0x66a,0x66d,0x1},{0x66e,0x66f,0x83},
{0x670,0x670,0x101},{0x671,0x6d3,0x83},{0x6d4,0x6d4,0x1},{0x6d5,0x6d5,0x83},{0x6d6,0x6dc,0x101},{0x6dd,0x6dd,0x1},{0x6df,0x6e4,0x101},{0x6e5,0x6e6,0x3},
{0x6e7,0x6e8,0x101},{0x6e9,0x6e9,0x1},{0x6ea,0x6ed,0x101},{0x6f0,0x6f9,0x5},{0x6fa,0x6fc,0x83},{0x6fd,0x6fe,0x1},{0x700,0x70d,0x1},{0x70f,0x70f,0x1},
{0x710,0x710,0x83},{0x711,0x711,0x101},{0x712,0x72c,0x83},{0x730,0x74a,0x101},{0x780,0x7a5,0x83},{0x7a6,0x7b0,0x101},{0x7b1,0x7b1,0x83},{0x901,0x902,0x101},
{0x903,0x903,0x1},{0x905,0x939,0x83},{0x93c,0x93c,0x101},{0x93d,0x93d,0x83},{0x93e,0x940,0x1},{0x941,0x948,0x101},{0x949,0x94c,0x1},{0x94d,0x94d,0x101},
{0x950,0x950,0x83},{0x951,0x954,0x101},{0x958,0x961,0x83},{0x962,0x963,0x101},{0x964,0x965,0x1},{0x966,0x96f,0x5},{0x970,0x970,0x1},{0x981,0x981,0x101},
{0x982,0x983,0x1},{0x985,0x98c,0x83},{0x98f,0x990,0x83},{0x993,0x9a8,0x83},{0x9aa,0x9b0,0x83},{0x9b2,0x9b2,0x83},{0x9b6,0x9b9,0x83},{0x9bc,0x9bc,0x101},
{0x9be,0x9c0,0x1},{0x9c1,0x9c4,0x101},{0x9c7,0x9c8,0x1},{0x9cb,0x9cc,0x1},{0x9cd,0x9cd,0x101},{0x9d7,0x9d7,0x1},{0x9dc,0x9dd,0x83},{0x9df,0x9e1,0x83},
{0x9e2,0x9e3,0x101},{0x9e6,0x9ef,0x5},{0x9f0,0x9f1,0x83},{0x9f2,0x9f3,0x1},{0x9f4,0x9f9,0x9},{0x9fa,0x9fa,0x1},{0xa02,0xa02,0x101},{0xa05,0xa0a,0x83},
{0xa0f,0xa10,0x83},{0xa13,0xa28,0x83},{0xa2a,0xa30,0x83},{0xa32,0xa33,0x83},{0xa35,0xa36,0x83},{0xa38,0xa39,0x83},{0xa3c,0xa3c,0x101},{0xa3e,0xa40,0x1},
{0xa41,0xa42,0x101},{0xa47,0xa48,0x101},{0xa4b,0xa4d,0x101},{0xa59,0xa5c,0x83},{0xa5e,0xa5e,0x83},{0xa66,0xa6f,0x5},{0xa70,0xa71,0x101},{0xa72,0xa74,0x83},
{0xa81,0xa82,0x101},{0xa83,0xa83,0x1},{0xa85,0xa8b,0x83},{0xa8d,0xa8d,0x83},{0xa8f,0xa91,0x83},{0xa93,0xaa8,0x83},{0xaaa,0xab0,0x83},{0xab2,0xab3,0x83},
{0xab5,0xab9,0x83},{0xabc,0xabc,0x101},{0xabd,0xabd,0x83},{0xabe,0xac0,0x1},{0xac1,0xac5,0x101},{0xac7,0xac8,0x101},{0xac9,0xac9,0x1},{0xacb,0xacc,0x1},
{0xacd,0xacd,0x101},{0xad0,0xad0,0x83},{0xae0,0xae0,0x83},{0xae6,0xaef,0x5},{0xb01,0xb01,0x101},{0xb02,0xb03,0x1},{0xb05,0xb0c,0x83},{0xb0f,0xb10,0x83},
{0xb13,0xb28,0x83},{0xb2a,0xb30,0x83},{0xb32,0xb33,0x83},{0xb36,0xb39,0x83},{0xb3c,0xb3c,0x101},{0xb3d,0xb3d,0x83},{0xb3e,0xb3e,0x1},{0xb3f,0xb3f,0x101},
{0xb40,0xb40,0x1},{0xb41,0xb43,0x101},{0xb47,0xb48,0x1},{0xb4b,0xb4c,0x1},{0xb4d,0xb4d,0x101},{0xb56,0xb56,0x101},{0xb57,0xb57,0x1},{0xb5c,0xb5d,0x83},
{0xb5f,0xb61,0x83},{0xb66,0xb6f,0x5},{0xb70,0xb70,0x1},{0xb82,0xb82,0x101},{0xb83,0xb83,0x83},{0xb85,0xb8a,0x83},{0xb8e,0xb90,0x83},{0xb92,0xb95,0x83},
{0xb99,0xb9a,0x83},{0xb9c,0xb9c,0x83},{0xb9e,0xb9f,0x83},{0xba3,0xba4,0x83},{0xba8,0xbaa,0x83},{0xbae,0xbb5,0x83},{0xbb7,0xbb9,0x83},{0xbbe,0xbbf,0x1},
{0xbc0,0xbc0,0x101},{0xbc1,0xbc2,0x1},{0xbc6,0xbc8,0x1},{0xbca,0xbcc,0x1},{0xbcd,0xbcd,0x101},{0xbd7,0xbd7,0x1},{0xbe7,0xbef,0x5},{0xbf0,0xbf2,0x9},
{0xc01,0xc03,0x1},{0xc05,0xc0c,0x83},{0xc0e,0xc10,0x83},{0xc12,0xc28,0x83},{0xc2a,0xc33,0x83},{0xc35,0xc39,0x83},{0xc3e,0xc40,0x101},{0xc41,0xc44,0x1},
{0xc46,0xc48,0x101},{0xc4a,0xc4d,0x101},{0xc55,0xc56,0x101},{0xc60,0xc61,0x83},{0xc66,0xc6f,0x5},{0xc82,0xc83,0x1},{0xc85,0xc8c,0x83},{0xc8e,0xc90,0x83},
{0xc92,0xca8,0x83},{0xcaa,0xcb3,0x83},{0xcb5,0xcb9,0x83},{0xcbe,0xcbe,0x1},{0xcbf,0xcbf,0x101},{0xcc0,0xcc4,0x1},{0xcc6,0xcc6,0x101},{0xcc7,0xcc8,0x1},
{0xcca,0xccb,0x1},{0xccc,0xccd,0x101},{0xcd5,0xcd6,0x1},{0xcde,0xcde,0x83},{0xce0,0xce1,0x83},{0xce6,0xcef,0x5},{0xd02,0xd03,0x1},{0xd05,0xd0c,0x83},
{0xd0e,0xd10,0x83},{0xd12,0xd28,0x83},{0xd2a,0xd39,0x83},{0xd3e,0xd40,0x1},{0xd41,0xd43,0x101},{0xd46,0xd48,0x1},{0xd4a,0xd4c,0x1},{0xd4d,0xd4d,0x101},
{0xd57,0xd57,0x1},{0xd60,0xd61,0x83},{0xd66,0xd6f,0x5},{0xd82,0xd83,0x1},{0xd85,0xd96,0x83},{0xd9a,0xdb1,0x83},{0xdb3,0xdbb,0x83},{0xdbd,0xdbd,0x83},
{0xdc0,0xdc6,0x83},{0xdca,0xdca,0x101},{0xdcf,0xdd1,0x1},{0xdd2,0xdd4,0x101},{0xdd6,0xdd6,0x101},{0xdd8,0xddf,0x1},{0xdf2,0xdf4,0x1},{0xe01,0xe30,0x83},
{0xe31,0xe31,0x101},{0xe32,0xe33,0x83},{0xe34,0xe3a,0x101},{0xe3f,0xe3f,0x1},{0xe40,0xe45,0x83},{0xe46,0xe46,0x3},{0xe47,0xe4e,0x101},{0xe4f,0xe4f,0x1},
{0xe50,0xe59,0x5},{0xe5a,0xe5b,0x1},{0xe81,0xe82,0x83},{0xe84,0xe84,0x83},{0xe87,0xe88,0x83},{0xe8a,0xe8a,0x83},{0xe8d,0xe8d,0x83},{0xe94,0xe97,0x83},
{0xe99,0xe9f,0x83},{0xea1,0xea3,0x83},{0xea5,0xea5,0x83},{0xea7,0xea7,0x83},{0xeaa,0xeab,0x83},{0xead,0xeb0,0x83},{0xeb1,0xeb1,0x101},{0xeb2,0xeb3,0x83},
{0xeb4,0xeb9,0x101},{0xebb,0xebc,0x101},{0xebd,0xebd,0x83},{0xec0,0xec4,0x83},{0xec6,0xec6,0x3},{0xec8,0xecd,0x101},{0xed0,0xed9,0x5},{0xedc,0xedd,0x83},
{0xf00,0xf00,0x83},{0xf01,0xf13,0x1},{0xf15,0xf17,0x1},{0xf18,0xf19,0x101},{0xf1a,0xf1f,0x1},{0xf20,0xf29,0x5},{0xf2a,0xf33,0x9},{0xf34,0xf34,0x1},
{0xf35,0xf35,0x101},{0xf36,0xf36,0x1},{0xf37,0xf37,0x101},{0xf38,0xf38,0x1},{0xf39,0xf39,0x101},{0xf3a,0xf3f,0x1},{0xf40,0xf47,0x83},{0xf49,0xf6a,0x83},
{0xf71,0xf7e,0x101},{0xf7f,0xf7f,0x1},{0xf80,0xf84,0x101},{0xf85,0xf85,0x1},{0xf86,0xf87,0x101},{0xf88,0xf8b,0x83},{0xf90,0xf97,0x101},{0xf99,0xfbc,0x101},
{0xfbe,0xfc5,0x1},{0xfc6,0xfc6,0x101},{0xfc7,0xfcc,0x1},{0xfcf,0xfcf,0x1},{0x1000,0x1021,0x83},{0x1023,0x1027,0x83},{0x1029,0x102a,0x83},{0x102c,0x102c,0x1},
{0x102d,0x1030,0x101},{0x1031,0x1031,0x1},{0x1032,0x1032,0x101},{0x1036,0x1037,0x101},{0x1038,0x1038,0x1},{0x1039,0x1039,0x101},{0x1040,0x1049,0x5},
{0x104a,0x104f,0x1},{0x1050,0x1055,0x83},{0x1056,0x1057,0x1},{0x1058,0x1059,0x101},{0x10a0,0x10c5,0x23},{0x10fb,0x10fb,0x1},{0x1100,0x1159,0x83},
{0x115f,0x11a2,0x83},{0x11a8,0x11f9,0x83},{0x1200,0x1206,0x83},{0x1208,0x1246,0x83},{0x1248,0x1248,0x83},{0x124a,0x124d,0x83},{0x1250,0x1256,0x83},
{0x1258,0x1258,0x83},{0x125a,0x125d,0x83},{0x1260,0x1286,0x83},{0x1288,0x1288,0x83},{0x128a,0x128d,0x83},{0x1290,0x12ae,0x83},{0x12b0,0x12b0,0x83},
{0x12b2,0x12b5,0x83},{0x12b8,0x12be,0x83},{0x12c0,0x12c0,0x83},{0x12c2,0x12c5,0x83},{0x12c8,0x12ce,0x83},{0x12d0,0x12d6,0x83},{0x12d8,0x12ee,0x83},
{0x12f0,0x130e,0x83},{0x1310,0x1310,0x83},{0x1312,0x1315,0x83},{0x1318,0x131e,0x83},{0x1320,0x1346,0x83},{0x1348,0x135a,0x83},{0x1361,0x1368,0x1},
{0x1372,0x137c,0x9},{0x1401,0x166c,0x83},{0x166e,0x166e,0x1},{0x166f,0x1676,0x83},{0x1680,0x1680,0x11},{0x1681,0x169a,0x83},{0x169b,0x169c,0x1},
{0x16a0,0x16ea,0x83},{0x16eb,0x16ed,0x1},{0x16ee,0x16f0,0x9},{0x1700,0x170c,0x83},{0x170e,0x1711,0x83},{0x1712,0x1714,0x101},{0x1720,0x1731,0x83},
{0x1732,0x1733,0x101},{0x1735,0x1736,0x1},{0x1740,0x1751,0x83},{0x1752,0x1753,0x101},{0x1760,0x176c,0x83},{0x176e,0x1770,0x83},{0x1772,0x1773,0x101},
{0x1780,0x17b3,0x83},{0x17b6,0x17b6,0x1},{0x17b7,0x17bd,0x101},{0x17be,0x17c5,0x1},{0x17c6,0x17c6,0x101},{0x17c7,0x17c8,0x1},{0x17c9,0x17d3,0x101},
{0x17d4,0x17d6,0x1},{0x17d7,0x17d7,0x3},{0x17d8,0x17db,0x1},{0x17dc,0x17dc,0x83},{0x17e0,0x17e9,0x5},{0x1800,0x180a,0x1},{0x180b,0x180d,0x101},
{0x1810,0x1819,0x5},{0x1820,0x1842,0x83},{0x1843,0x1843,0x3},{0x1844,0x1877,0x83},{0x1880,0x1884,0x83},{0x1887,0x18a8,0x83},{0x18a9,0x18a9,0x101},
{0x1e00,0x1e00,0x23},{0x1e01,0x1e01,0x43},{0x1e02,0x1e02,0x23},{0x1e03,0x1e03,0x43},{0x1e04,0x1e04,0x23},{0x1e05,0x1e05,0x43},{0x1e06,0x1e06,0x23},
{0x1e07,0x1e07,0x43},{0x1e08,0x1e08,0x23},{0x1e09,0x1e09,0x43},{0x1e0a,0x1e0a,0x23},{0x1e0b,0x1e0b,0x43},{0x1e0c,0x1e0c,0x23},{0x1e0d,0x1e0d,0x43},
{0x1e0e,0x1e0e,0x23},{0x1e0f,0x1e0f,0x43},{0x1e10,0x1e10,0x23},{0x1e11,0x1e11,0x43},{0x1e12,0x1e12,0x23},{0x1e13,0x1e13,0x43},{0x1e14,0x1e14,0x23},
{0x1e15,0x1e15,0x43},{0x1e16,0x1e16,0x23},{0x1e17,0x1e17,0x43},{0x1e18,0x1e18,0x23},{0x1e19,0x1e19,0x43},{0x1e1a,0x1e1a,0x23},{0x1e1b,0x1e1b,0x43},
{0x1e1c,0x1e1c,0x23},{0x1e1d,0x1e1d,0x43},{0x1e1e,0x1e1e,0x23},{0x1e1f,0x1e1f,0x43},{0x1e20,0x1e20,0x23},{0x1e21,0x1e21,0x43},{0x1e22,0x1e22,0x23},
{0x1e23,0x1e23,0x43},{0x1e24,0x1e24,0x23},{0x1e25,0x1e25,0x43},{0x1e26,0x1e26,0x23},{0x1e27,0x1e27,0x43},{0x1e28,0x1e28,0x23},{0x1e29,0x1e29,0x43},
{0x1e2a,0x1e2a,0x23},{0x1e2b,0x1e2b,0x43},{0x1e2c,0x1e2c,0x23},{0x1e2d,0x1e2d,0x43},{0x1e2e,0x1e2e,0x23},{0x1e2f,0x1e2f,0x43},{0x1e30,0x1e30,0x23},
{0x1e31,0x1e31,0x43},{0x1e32,0x1e32,0x23},{0x1e33,0x1e33,0x43},{0x1e34,0x1e34,0x23},{0x1e35,0x1e35,0x43},{0x1e36,0x1e36,0x23},{0x1e37,0x1e37,0x43},
{0x1e38,0x1e38,0x23},{0x1e39,0x1e39,0x43},{0x1e3a,0x1e3a,0x23},{0x1e3b,0x1e3b,0x43},{0x1e3c,0x1e3c,0x23},{0x1e3d,0x1e3d,0x43},{0x1e3e,0x1e3e,0x23},
{0x1e3f,0x1e3f,0x43},{0x1e40,0x1e40,0x23},{0x1e41,0x1e41,0x43},{0x1e42,0x1e42,0x23},{0x1e43,0x1e43,0x43},{0x1e44,0x1e44,0x23},{0x1e45,0x1e45,0x43},
{0x1e46,0x1e46,0x23},{0x1e47,0x1e47,0x43},{0x1e48,0x1e48,0x23},{0x1e49,0x1e49,0x43},{0x1e4a,0x1e4a,0x23},{0x1e4b,0x1e4b,0x43},{0x1e4c,0x1e4c,0x23},
{0x1e4d,0x1e4d,0x43},{0x1e4e,0x1e4e,0x23},{0x1e4f,0x1e4f,0x43},{0x1e50,0x1e50,0x23},{0x1e51,0x1e51,0x43},{0x1e52,0x1e52,0x23},{0x1e53,0x1e53,0x43},
{0x1e54,0x1e54,0x23},{0x1e55,0x1e55,0x43},{0x1e56,0x1e56,0x23},{0x1e57,0x1e57,0x43},{0x1e58,0x1e58,0x23},{0x1e59,0x1e59,0x43},{0x1e5a,0x1e5a,0x23},
{0x1e5b,0x1e5b,0x43},{0x1e5c,0x1e5c,0x23},{0x1e5d,0x1e5d,0x43},{0x1e5e,0x1e5e,0x23},{0x1e5f,0x1e5f,0x43},{0x1e60,0x1e60,0x23},{0x1e61,0x1e61,0x43},
{0x1e62,0x1e62,0x23},{0x1e63,0x1e63,0x43},{0x1e64,0x1e64,0x23},{0x1e65,0x1e65,0x43},{0x1e66,0x1e66,0x23},{0x1e67,0x1e67,0x43},{0x1e68,0x1e68,0x23},
{0x1e69,0x1e69,0x43},{0x1e6a,0x1e6a,0x23},{0x1e6b,0x1e6b,0x43},{0x1e6c,0x1e6c,0x23},{0x1e6d,0x1e6d,0x43},{0x1e6e,0x1e6e,0x23},{0x1e6f,0x1e6f,0x43},
{0x1e70,0x1e70,0x23},{0x1e71,0x1e71,0x43},{0x1e72,0x1e72,0x23},{0x1e73,0x1e73,0x43},{0x1e74,0x1e74,0x23},{0x1e75,0x1e75,0x43},{0x1e76,0x1e76,0x23},
{0x1e77,0x1e77,0x43},{0x1e78,0x1e78,0x23},{0x1e79,0x1e79,0x43},{0x1e7a,0x1e7a,0x23},{0x1e7b,0x1e7b,0x43},{0x1e7c,0x1e7c,0x23},{0x1e7d,0x1e7d,0x43},
{0x1e7e,0x1e7e,0x23},{0x1e7f,0x1e7f,0x43},{0x1e80,0x1e80,0x23},{0x1e81,0x1e81,0x43},{0x1e82,0x1e82,0x23},{0x1e83,0x1e83,0x43},{0x1e84,0x1e84,0x23},
{0x1e85,0x1e85,0x43},{0x1e86,0x1e86,0x23},{0x1e87,0x1e87,0x43},{0x1e88,0x1e88,0x23},{0x1e89,0x1e89,0x43},{0x1e8a,0x1e8a,0x23},{0x1e8b,0x1e8b,0x43},
{0x1e8c,0x1e8c,0x23},{0x1e8d,0x1e8d,0x43},{0x1e8e,0x1e8e,0x23},{0x1e8f,0x1e8f,0x43},{0x1e90,0x1e90,0x23},{0x1e91,0x1e91,0x43},{0x1e92,0x1e92,0x23},
{0x1e93,0x1e93,0x43},{0x1e94,0x1e94,0x23},{0x1e95,0x1e9b,0x43},{0x1ea0,0x1ea0,0x23},{0x1ea1,0x1ea1,0x43},{0x1ea2,0x1ea2,0x23},{0x1ea3,0x1ea3,0x43},
{0x1ea4,0x1ea4,0x23},{0x1ea5,0x1ea5,0x43},{0x1ea6,0x1ea6,0x23},{0x1ea7,0x1ea7,0x43},{0x1ea8,0x1ea8,0x23},{0x1ea9,0x1ea9,0x43},{0x1eaa,0x1eaa,0x23},
{0x1eab,0x1eab,0x43},{0x1eac,0x1eac,0x23},{0x1ead,0x1ead,0x43},{0x1eae,0x1eae,0x23},{0x1eaf,0x1eaf,0x43},{0x1eb0,0x1eb0,0x23},{0x1eb1,0x1eb1,0x43},
{0x1eb2,0x1eb2,0x23},{0x1eb3,0x1eb3,0x43},{0x1eb4,0x1eb4,0x23},{0x1eb5,0x1eb5,0x43},{0x1eb6,0x1eb6,0x23},{0x1eb7,0x1eb7,0x43},{0x1eb8,0x1eb8,0x23},
{0x1eb9,0x1eb9,0x43},{0x1eba,0x1eba,0x23},{0x1ebb,0x1ebb,0x43},{0x1ebc,0x1ebc,0x23},{0x1ebd,0x1ebd,0x43},{0x1ebe,0x1ebe,0x23},{0x1ebf,0x1ebf,0x43},
{0x1ec0,0x1ec0,0x23},{0x1ec1,0x1ec1,0x43},{0x1ec2,0x1ec2,0x23},{0x1ec3,0x1ec3,0x43},{0x1ec4,0x1ec4,0x23},{0x1ec5,0x1ec5,0x43},{0x1ec6,0x1ec6,0x23},
{0x1ec7,0x1ec7,0x43},{0x1ec8,0x1ec8,0x23},{0x1ec9,0x1ec9,0x43},{0x1eca,0x1eca,0x23},{0x1ecb,0x1ecb,0x43},{0x1ecc,0x1ecc,0x23},{0x1ecd,0x1ecd,0x43},
{0x1ece,0x1ece,0x23},{0x1ecf,0x1ecf,0x43},{0x1ed0,0x1ed0,0x23},{0x1ed1,0x1ed1,0x43},{0x1ed2,0x1ed2,0x23},{0x1ed3,0x1ed3,0x43},{0x1ed4,0x1ed4,0x23},
{0x1ed5,0x1ed5,0x43},{0x1ed6,0x1ed6,0x23},{0x1ed7,0x1ed7,0x43},{0x1ed8,0x1ed8,0x23},{0x1ed9,0x1ed9,0x43},{0x1eda,0x1eda,0x23},{0x1edb,0x1edb,0x43},
{0x1edc,0x1edc,0x23},{0x1edd,0x1edd,0x43},{0x1ede,0x1ede,0x23},{0x1edf,0x1edf,0x43},{0x1ee0,0x1ee0,0x23},{0x1ee1,0x1ee1,0x43},{0x1ee2,0x1ee2,0x23},
{0x1ee3,0x1ee3,0x43},{0x1ee4,0x1ee4,0x23},{0x1ee5,0x1ee5,0x43},{0x1ee6,0x1ee6,0x23},{0x1ee7,0x1ee7,0x43},{0x1ee8,0x1ee8,0x23},{0x1ee9,0x1ee9,0x43},
{0x1eea,0x1eea,0x23},{0x1eeb,0x1eeb,0x43},{0x1eec,0x1eec,0x23},{0x1eed,0x1eed,0x43},{0x1eee,0x1eee,0x23},{0x1eef,0x1eef,0x43},{0x1ef0,0x1ef0,0x23},
{0x1ef1,0x1ef1,0x43},{0x1ef2,0x1ef2,0x23},{0x1ef3,0x1ef3,0x43},{0x1ef4,0x1ef4,0x23},{0x1ef5,0x1ef5,0x43},{0x1ef6,0x1ef6,0x23},{0x1ef7,0x1ef7,0x43},
{0x1ef8,0x1ef8,0x23},{0x1ef9,0x1ef9,0x43},{0x1f00,0x1f07,0x43},{0x1f08,0x1f0f,0x23},{0x1f10,0x1f15,0x43},{0x1f18,0x1f1d,0x23},{0x1f20,0x1f27,0x43},
{0x1f28,0x1f2f,0x23},{0x1f30,0x1f37,0x43},{0x1f38,0x1f3f,0x23},{0x1f40,0x1f45,0x43},{0x1f48,0x1f4d,0x23},{0x1f50,0x1f57,0x43},{0x1f59,0x1f59,0x23},
{0x1f5b,0x1f5b,0x23},{0x1f5d,0x1f5d,0x23},{0x1f5f,0x1f5f,0x23},{0x1f60,0x1f67,0x43},{0x1f68,0x1f6f,0x23},{0x1f70,0x1f7d,0x43},{0x1f80,0x1f87,0x43},
{0x1f88,0x1f8f,0x3},{0x1f90,0x1f97,0x43},{0x1f98,0x1f9f,0x3},{0x1fa0,0x1fa7,0x43},{0x1fa8,0x1faf,0x3},{0x1fb0,0x1fb4,0x43},{0x1fb6,0x1fb7,0x43},
{0x1fb8,0x1fbb,0x23},{0x1fbc,0x1fbc,0x3},{0x1fbd,0x1fbd,0x1},{0x1fbe,0x1fbe,0x43},{0x1fbf,0x1fc1,0x1},{0x1fc2,0x1fc4,0x43},{0x1fc6,0x1fc7,0x43},
{0x1fc8,0x1fcb,0x23},{0x1fcc,0x1fcc,0x3},{0x1fcd,0x1fcf,0x1},{0x1fd0,0x1fd3,0x43},{0x1fd6,0x1fd7,0x43},{0x1fd8,0x1fdb,0x23},{0x1fdd,0x1fdf,0x1},
{0x1fe0,0x1fe7,0x43},{0x1fe8,0x1fec,0x23},{0x1fed,0x1fef,0x1},{0x1ff2,0x1ff4,0x43},{0x1ff6,0x1ff7,0x43},{0x1ff8,0x1ffb,0x23},{0x1ffc,0x1ffc,0x3},
{0x1ffd,0x1ffe,0x1},{0x2000,0x200a,0x11},{0x200c,0x2027,0x1},{0x2028,0x2029,0x11},{0x202a,0x202e,0x1},{0x202f,0x202f,0x11},{0x2030,0x2052,0x1},
{0x2057,0x2057,0x1},{0x205f,0x205f,0x11},{0x2060,0x2063,0x1},{0x206a,0x206f,0x1},{0x2070,0x2070,0x9},{0x2074,0x2079,0x9},{0x207a,0x207e,0x1},
{0x2080,0x2089,0x9},{0x208a,0x208e,0x1},{0x20a0,0x20b1,0x1},{0x20d0,0x20dc,0x101},{0x20dd,0x20e0,0x1},{0x20e1,0x20e1,0x101},{0x20e2,0x20e4,0x1},
{0x20e5,0x20ea,0x101},{0x2100,0x2101,0x1},{0x2102,0x2102,0x23},{0x2103,0x2106,0x1},{0x2107,0x2107,0x23},{0x2108,0x2109,0x1},{0x210a,0x210a,0x43},
{0x210b,0x210d,0x23},{0x210e,0x210f,0x43},{0x2110,0x2112,0x23},{0x2113,0x2113,0x43},{0x2114,0x2114,0x1},{0x2115,0x2115,0x23},{0x2116,0x2117,0x1},
{0x2119,0x211d,0x23},{0x211e,0x2123,0x1},{0x2124,0x2124,0x23},{0x2125,0x2125,0x1},{0x2126,0x2126,0x23},{0x2127,0x2127,0x1},{0x2128,0x2128,0x23},
{0x2129,0x2129,0x1},{0x212a,0x212d,0x23},{0x212e,0x212e,0x1},{0x212f,0x212f,0x43},{0x2130,0x2131,0x23},{0x2133,0x2133,0x23},{0x2134,0x2134,0x43},
{0x2135,0x2138,0x83},{0x2139,0x2139,0x43},{0x213a,0x213a,0x1},{0x213d,0x213d,0x43},{0x213e,0x213f,0x23},{0x2140,0x2144,0x1},{0x2145,0x2145,0x23},
{0x2146,0x2149,0x43},{0x214a,0x214b,0x1},{0x2153,0x2182,0x9},{0x2190,0x2307,0x1},{0x230c,0x23b3,0x1},{0x23b7,0x23ce,0x1},{0x2400,0x2426,0x1},
{0x2440,0x244a,0x1},{0x2460,0x249b,0x9},{0x249c,0x24e9,0x1},{0x24ea,0x24fe,0x9},{0x2500,0x2613,0x1},{0x2616,0x2617,0x1},{0x2619,0x267d,0x1},{0x2680,0x2689,0x1},
{0x2701,0x2704,0x1},{0x2706,0x2709,0x1},{0x270c,0x2727,0x1},{0x2729,0x274b,0x1},{0x274d,0x274d,0x1},{0x274f,0x2752,0x1},{0x2756,0x2756,0x1},{0x2758,0x275e,0x1},
{0x2761,0x2775,0x1},{0x2776,0x2793,0x9},{0x2794,0x2794,0x1},{0x2798,0x27af,0x1},{0x27b1,0x27be,0x1},{0x27d0,0x27eb,0x1},{0x27f0,0x2aff,0x1},{0x2e80,0x2e99,0x1},
{0x2e9b,0x2ef3,0x1},{0x2f00,0x2fd5,0x1},{0x2ff0,0x2ffb,0x1},{0x3000,0x3000,0x11},{0x3001,0x3004,0x1},{0x3005,0x3005,0x3},{0x3006,0x3006,0x83},
{0x3007,0x3007,0x9},{0x3008,0x3020,0x1},{0x3021,0x3029,0x9},{0x302a,0x302d,0x101},{0x3030,0x3030,0x1},{0x3031,0x3035,0x3},{0x3036,0x3037,0x1},
{0x3038,0x303a,0x9},{0x303b,0x303b,0x3},{0x303c,0x303c,0x83},{0x303d,0x303f,0x1},{0x3041,0x3096,0x83},{0x3099,0x309a,0x101},{0x309b,0x309c,0x1},
{0x309d,0x309e,0x3},{0x309f,0x309f,0x83},{0x30a0,0x30a0,0x1},{0x30a1,0x30fa,0x83},{0x30fc,0x30fe,0x3},{0x30ff,0x30ff,0x83},{0x3105,0x312c,0x83},
{0x3131,0x318e,0x83},{0x3190,0x3191,0x1},{0x3192,0x3195,0x9},{0x3196,0x319f,0x1},{0x31a0,0x31b7,0x83},{0x31f0,0x31ff,0x83},{0x3200,0x321c,0x1},
{0x3220,0x3229,0x9},{0x322a,0x3243,0x1},{0x3251,0x325f,0x9},{0x3260,0x327b,0x1},{0x327f,0x327f,0x1},{0x3280,0x3289,0x9},{0x328a,0x32b0,0x1},{0x32b1,0x32bf,0x9},
{0x32c0,0x32cb,0x1},{0x32d0,0x32fe,0x1},{0x3300,0x3376,0x1},{0x337b,0x33dd,0x1},{0x33e0,0x33fe,0x1},{0x3400,0x4db5,0x83},{0x4e00,0x9fa5,0x83},
{0xa000,0xa014,0x83},{0xa016,0xa48c,0x83},{0xa490,0xa4c6,0x1},{0xac00,0xd7a3,0x83},{0xf900,0xfa2d,0x83},{0xfa30,0xfa6a,0x83},{0xfb00,0xfb06,0x43},
{0xfb13,0xfb17,0x43},{0xfb1d,0xfb1d,0x83},{0xfb1e,0xfb1e,0x101},{0xfb1f,0xfb28,0x83},{0xfb29,0xfb29,0x1},{0xfb2a,0xfb36,0x83},{0xfb38,0xfb3c,0x83},
{0xfb3e,0xfb3e,0x83},{0xfb40,0xfb41,0x83},{0xfb43,0xfb44,0x83},{0xfb46,0xfbb1,0x83},{0xfbd3,0xfd3d,0x83},{0xfd50,0xfd8f,0x83},{0xfd92,0xfdc7,0x83},
{0xfdf0,0xfdfb,0x83},{0xfdfc,0xfdfc,0x1},{0xfe00,0xfe0f,0x101},{0xfe20,0xfe23,0x101},{0xfe30,0xfe46,0x1},{0xfe49,0xfe52,0x1},{0xfe54,0xfe66,0x1},
{0xfe68,0xfe6b,0x1},{0xfe70,0xfe74,0x83},{0xfe76,0xfefc,0x83},{0xfeff,0xfeff,0x1},{0xff01,0xff0f,0x1},{0xff10,0xff19,0x5},{0xff1a,0xff20,0x1},
{0xff21,0xff3a,0x23},{0xff3b,0xff40,0x1},{0xff41,0xff5a,0x43},{0xff5b,0xff64,0x1},{0xff66,0xff6f,0x83},{0xff70,0xff70,0x3},{0xff71,0xff9d,0x83},
{0xff9e,0xff9f,0x3},{0xffa0,0xffbe,0x83},{0xffc2,0xffc7,0x83},{0xffca,0xffcf,0x83},{0xffd2,0xffd7,0x83},{0xffda,0xffdc,0x83},{0xffe0,0xffe6,0x1},
{0xffe8,0xffee,0x1},{0xfff9,0xfffd,0x1},{0x10300,0x1031e,0x83},{0x10320,0x10323,0x9},{0x10330,0x10340,0x83},{0x10342,0x10349,0x83},{0x1034a,0x1034a,0x9},
{0x10400,0x10425,0x23},{0x10428,0x1044d,0x43},{0x1d000,0x1d0f5,0x1},{0x1d100,0x1d126,0x1},{0x1d12a,0x1d166,0x1},{0x1d167,0x1d169,0x101},{0x1d16a,0x1d17a,0x1},
{0x1d17b,0x1d182,0x101},{0x1d183,0x1d184,0x1},{0x1d185,0x1d18b,0x101},{0x1d18c,0x1d1a9,0x1},{0x1d1aa,0x1d1ad,0x101},{0x1d1ae,0x1d1dd,0x1},
{0x1d400,0x1d419,0x23},{0x1d41a,0x1d433,0x43},{0x1d434,0x1d44d,0x23},{0x1d44e,0x1d454,0x43},{0x1d456,0x1d467,0x43},{0x1d468,0x1d481,0x23},
{0x1d482,0x1d49b,0x43},{0x1d49c,0x1d49c,0x23},{0x1d49e,0x1d49f,0x23},{0x1d4a2,0x1d4a2,0x23},{0x1d4a5,0x1d4a6,0x23},{0x1d4a9,0x1d4ac,0x23},
{0x1d4ae,0x1d4b5,0x23},{0x1d4b6,0x1d4b9,0x43},{0x1d4bb,0x1d4bb,0x43},{0x1d4bd,0x1d4c0,0x43},{0x1d4c2,0x1d4c3,0x43},{0x1d4c5,0x1d4cf,0x43},
{0x1d4d0,0x1d4e9,0x23},{0x1d4ea,0x1d503,0x43},{0x1d504,0x1d505,0x23},{0x1d507,0x1d50a,0x23},{0x1d50d,0x1d514,0x23},{0x1d516,0x1d51c,0x23},
{0x1d51e,0x1d537,0x43},{0x1d538,0x1d539,0x23},{0x1d53b,0x1d53e,0x23},{0x1d540,0x1d544,0x23},{0x1d546,0x1d546,0x23},{0x1d54a,0x1d550,0x23},
{0x1d552,0x1d56b,0x43},{0x1d56c,0x1d585,0x23},{0x1d586,0x1d59f,0x43},{0x1d5a0,0x1d5b9,0x23},{0x1d5ba,0x1d5d3,0x43},{0x1d5d4,0x1d5ed,0x23},
{0x1d5ee,0x1d607,0x43},{0x1d608,0x1d621,0x23},{0x1d622,0x1d63b,0x43},{0x1d63c,0x1d655,0x23},{0x1d656,0x1d66f,0x43},{0x1d670,0x1d689,0x23},
{0x1d68a,0x1d6a3,0x43},{0x1d6a8,0x1d6c0,0x23},{0x1d6c1,0x1d6c1,0x1},{0x1d6c2,0x1d6da,0x43},{0x1d6db,0x1d6db,0x1},{0x1d6dc,0x1d6e1,0x43},{0x1d6e2,0x1d6fa,0x23},
{0x1d6fb,0x1d6fb,0x1},{0x1d6fc,0x1d714,0x43},{0x1d715,0x1d715,0x1},{0x1d716,0x1d71b,0x43},{0x1d71c,0x1d734,0x23},{0x1d735,0x1d735,0x1},{0x1d736,0x1d74e,0x43},
{0x1d74f,0x1d74f,0x1},{0x1d750,0x1d755,0x43},{0x1d756,0x1d76e,0x23},{0x1d76f,0x1d76f,0x1},{0x1d770,0x1d788,0x43},{0x1d789,0x1d789,0x1},{0x1d78a,0x1d78f,0x43},
{0x1d790,0x1d7a8,0x23},{0x1d7a9,0x1d7a9,0x1},{0x1d7aa,0x1d7c2,0x43},{0x1d7c3,0x1d7c3,0x1},{0x1d7c4,0x1d7c9,0x43},{0x1d7ce,0x1d7ff,0x5},
};
struct UniPair { unsigned a, b; };
static const UniPair uniLower[] = {
{0x41,0x61},{0x42,0x62},{0x43,0x63},{0x44,0x64},{0x45,0x65},{0x46,0x66},{0x47,0x67},{0x48,0x68},{0x49,0x69},{0x4a,0x6a},{0x4b,0x6b},{0x4c,0x6c},{0x4d,0x6d},
{0x4e,0x6e},{0x4f,0x6f},{0x50,0x70},{0x51,0x71},{0x52,0x72},{0x53,0x73},{0x54,0x74},{0x55,0x75},{0x56,0x76},{0x57,0x77},{0x58,0x78},{0x59,0x79},{0x5a,0x7a},
{0xc0,0xe0},{0xc1,0xe1},{0xc2,0xe2},{0xc3,0xe3},{0xc4,0xe4},{0xc5,0xe5},{0xc6,0xe6},{0xc7,0xe7},{0xc8,0xe8},{0xc9,0xe9},{0xca,0xea},{0xcb,0xeb},{0xcc,0xec},
{0xcd,0xed},{0xce,0xee},{0xcf,0xef},{0xd0,0xf0},{0xd1,0xf1},{0xd2,0xf2},{0xd3,0xf3},{0xd4,0xf4},{0xd5,0xf5},{0xd6,0xf6},{0xd8,0xf8},{0xd9,0xf9},{0xda,0xfa},
{0xdb,0xfb},{0xdc,0xfc},{0xdd,0xfd},{0xde,0xfe},{0x100,0x101},{0x102,0x103},{0x104,0x105},{0x106,0x107},{0x108,0x109},{0x10a,0x10b},{0x10c,0x10d},{0x10e,0x10f},
{0x110,0x111},{0x112,0x113},{0x114,0x115},{0x116,0x117},{0x118,0x119},{0x11a,0x11b},{0x11c,0x11d},{0x11e,0x11f},{0x120,0x121},{0x122,0x123},{0x124,0x125},
{0x126,0x127},{0x128,0x129},{0x12a,0x12b},{0x12c,0x12d},{0x12e,0x12f},{0x132,0x133},{0x134,0x135},{0x136,0x137},{0x139,0x13a},{0x13b,0x13c},{0x13d,0x13e},
{0x13f,0x140},{0x141,0x142},{0x143,0x144},{0x145,0x146},{0x147,0x148},{0x14a,0x14b},{0x14c,0x14d},{0x14e,0x14f},{0x150,0x151},{0x152,0x153},{0x154,0x155},
{0x156,0x157},{0x158,0x159},{0x15a,0x15b},{0x15c,0x15d},{0x15e,0x15f},{0x160,0x161},{0x162,0x163},{0x164,0x165},{0x166,0x167},{0x168,0x169},{0x16a,0x16b},
{0x16c,0x16d},{0x16e,0x16f},{0x170,0x171},{0x172,0x173},{0x174,0x175},{0x176,0x177},{0x178,0xff},{0x179,0x17a},{0x17b,0x17c},{0x17d,0x17e},{0x181,0x253},
{0x182,0x183},{0x184,0x185},{0x186,0x254},{0x187,0x188},{0x189,0x256},{0x18a,0x257},{0x18b,0x18c},{0x18e,0x1dd},{0x18f,0x259},{0x190,0x25b},{0x191,0x192},
{0x193,0x260},{0x194,0x263},{0x196,0x269},{0x197,0x268},{0x198,0x199},{0x19c,0x26f},{0x19d,0x272},{0x19f,0x275},{0x1a0,0x1a1},{0x1a2,0x1a3},{0x1a4,0x1a5},
{0x1a6,0x280},{0x1a7,0x1a8},{0x1a9,0x283},{0x1ac,0x1ad},{0x1ae,0x288},{0x1af,0x1b0},{0x1b1,0x28a},{0x1b2,0x28b},{0x1b3,0x1b4},{0x1b5,0x1b6},{0x1b7,0x292},
{0x1b8,0x1b9},{0x1bc,0x1bd},{0x1c4,0x1c6},{0x1c5,0x1c6},{0x1c7,0x1c9},{0x1c8,0x1c9},{0x1ca,0x1cc},{0x1cb,0x1cc},{0x1cd,0x1ce},{0x1cf,0x1d0},{0x1d1,0x1d2},
{0x1d3,0x1d4},{0x1d5,0x1d6},{0x1d7,0x1d8},{0x1d9,0x1da},{0x1db,0x1dc},{0x1de,0x1df},{0x1e0,0x1e1},{0x1e2,0x1e3},{0x1e4,0x1e5},{0x1e6,0x1e7},{0x1e8,0x1e9},
{0x1ea,0x1eb},{0x1ec,0x1ed},{0x1ee,0x1ef},{0x1f1,0x1f3},{0x1f2,0x1f3},{0x1f4,0x1f5},{0x1f6,0x195},{0x1f7,0x1bf},{0x1f8,0x1f9},{0x1fa,0x1fb},{0x1fc,0x1fd},
{0x1fe,0x1ff},{0x200,0x201},{0x202,0x203},{0x204,0x205},{0x206,0x207},{0x208,0x209},{0x20a,0x20b},{0x20c,0x20d},{0x20e,0x20f},{0x210,0x211},{0x212,0x213},
{0x214,0x215},{0x216,0x217},{0x218,0x219},{0x21a,0x21b},{0x21c,0x21d},{0x21e,0x21f},{0x220,0x19e},{0x222,0x223},{0x224,0x225},{0x226,0x227},{0x228,0x229},
{0x22a,0x22b},{0x22c,0x22d},{0x22e,0x22f},{0x230,0x231},{0x232,0x233},{0x386,0x3ac},{0x388,0x3ad},{0x389,0x3ae},{0x38a,0x3af},{0x38c,0x3cc},{0x38e,0x3cd},
{0x38f,0x3ce},{0x391,0x3b1},{0x392,0x3b2},{0x393,0x3b3},{0x394,0x3b4},{0x395,0x3b5},{0x396,0x3b6},{0x397,0x3b7},{0x398,0x3b8},{0x399,0x3b9},{0x39a,0x3ba},
{0x39b,0x3bb},{0x39c,0x3bc},{0x39d,0x3bd},{0x39e,0x3be},{0x39f,0x3bf},{0x3a0,0x3c0},{0x3a1,0x3c1},{0x3a3,0x3c3},{0x3a4,0x3c4},{0x3a5,0x3c5},{0x3a6,0x3c6},
{0x3a7,0x3c7},{0x3a8,0x3c8},{0x3a9,0x3c9},{0x3aa,0x3ca},{0x3ab,0x3cb},{0x3d8,0x3d9},{0x3da,0x3db},{0x3dc,0x3dd},{0x3de,0x3df},{0x3e0,0x3e1},{0x3e2,0x3e3},
{0x3e4,0x3e5},{0x3e6,0x3e7},{0x3e8,0x3e9},{0x3ea,0x3eb},{0x3ec,0x3ed},{0x3ee,0x3ef},{0x3f4,0x3b8},{0x400,0x450},{0x401,0x451},{0x402,0x452},{0x403,0x453},
{0x404,0x454},{0x405,0x455},{0x406,0x456},{0x407,0x457},{0x408,0x458},{0x409,0x459},{0x40a,0x45a},{0x40b,0x45b},{0x40c,0x45c},{0x40d,0x45d},{0x40e,0x45e},
{0x40f,0x45f},{0x410,0x430},{0x411,0x431},{0x412,0x432},{0x413,0x433},{0x414,0x434},{0x415,0x435},{0x416,0x436},{0x417,0x437},{0x418,0x438},{0x419,0x439},
{0x41a,0x43a},{0x41b,0x43b},{0x41c,0x43c},{0x41d,0x43d},{0x41e,0x43e},{0x41f,0x43f},{0x420,0x440},{0x421,0x441},{0x422,0x442},{0x423,0x443},{0x424,0x444},
{0x425,0x445},{0x426,0x446},{0x427,0x447},{0x428,0x448},{0x429,0x449},{0x42a,0x44a},{0x42b,0x44b},{0x42c,0x44c},{0x42d,0x44d},{0x42e,0x44e},{0x42f,0x44f},
{0x460,0x461},{0x462,0x463},{0x464,0x465},{0x466,0x467},{0x468,0x469},{0x46a,0x46b},{0x46c,0x46d},{0x46e,0x46f},{0x470,0x471},{0x472,0x473},{0x474,0x475},
{0x476,0x477},{0x478,0x479},{0x47a,0x47b},{0x47c,0x47d},{0x47e,0x47f},{0x480,0x481},{0x48a,0x48b},{0x48c,0x48d},{0x48e,0x48f},{0x490,0x491},{0x492,0x493},
{0x494,0x495},{0x496,0x497},{0x498,0x499},{0x49a,0x49b},{0x49c,0x49d},{0x49e,0x49f},{0x4a0,0x4a1},{0x4a2,0x4a3},{0x4a4,0x4a5},{0x4a6,0x4a7},{0x4a8,0x4a9},
{0x4aa,0x4ab},{0x4ac,0x4ad},{0x4ae,0x4af},{0x4b0,0x4b1},{0x4b2,0x4b3},{0x4b4,0x4b5},{0x4b6,0x4b7},{0x4b8,0x4b9},{0x4ba,0x4bb},{0x4bc,0x4bd},{0x4be,0x4bf},
{0x4c1,0x4c2},{0x4c3,0x4c4},{0x4c5,0x4c6},{0x4c7,0x4c8},{0x4c9,0x4ca},{0x4cb,0x4cc},{0x4cd,0x4ce},{0x4d0,0x4d1},{0x4d2,0x4d3},{0x4d4,0x4d5},{0x4d6,0x4d7},
{0x4d8,0x4d9},{0x4da,0x4db},{0x4dc,0x4dd},{0x4de,0x4df},{0x4e0,0x4e1},{0x4e2,0x4e3},{0x4e4,0x4e5},{0x4e6,0x4e7},{0x4e8,0x4e9},{0x4ea,0x4eb},{0x4ec,0x4ed},
{0x4ee,0x4ef},{0x4f0,0x4f1},{0x4f2,0x4f3},{0x4f4,0x4f5},{0x4f8,0x4f9},{0x500,0x501},{0x502,0x503},{0x504,0x505},{0x506,0x507},{0x508,0x509},{0x50a,0x50b},
{0x50c,0x50d},{0x50e,0x50f},{0x531,0x561},{0x532,0x562},{0x533,0x563},{0x534,0x564},{0x535,0x565},{0x536,0x566},{0x537,0x567},{0x538,0x568},{0x539,0x569},
{0x53a,0x56a},{0x53b,0x56b},{0x53c,0x56c},{0x53d,0x56d},{0x53e,0x56e},{0x53f,0x56f},{0x540,0x570},{0x541,0x571},{0x542,0x572},{0x543,0x573},{0x544,0x574},
{0x545,0x575},{0x546,0x576},{0x547,0x577},{0x548,0x578},{0x549,0x579},{0x54a,0x57a},{0x54b,0x57b},{0x54c,0x57c},{0x54d,0x57d},{0x54e,0x57e},{0x54f,0x57f},
{0x550,0x580},{0x551,0x581},{0x552,0x582},{0x553,0x583},{0x554,0x584},{0x555,0x585},{0x556,0x586},{0x1e00,0x1e01},{0x1e02,0x1e03},{0x1e04,0x1e05},
{0x1e06,0x1e07},{0x1e08,0x1e09},{0x1e0a,0x1e0b},{0x1e0c,0x1e0d},{0x1e0e,0x1e0f},{0x1e10,0x1e11},{0x1e12,0x1e13},{0x1e14,0x1e15},{0x1e16,0x1e17},{0x1e18,0x1e19},
{0x1e1a,0x1e1b},{0x1e1c,0x1e1d},{0x1e1e,0x1e1f},{0x1e20,0x1e21},{0x1e22,0x1e23},{0x1e24,0x1e25},{0x1e26,0x1e27},{0x1e28,0x1e29},{0x1e2a,0x1e2b},{0x1e2c,0x1e2d},
{0x1e2e,0x1e2f},{0x1e30,0x1e31},{0x1e32,0x1e33},{0x1e34,0x1e35},{0x1e36,0x1e37},{0x1e38,0x1e39},{0x1e3a,0x1e3b},{0x1e3c,0x1e3d},{0x1e3e,0x1e3f},{0x1e40,0x1e41},
{0x1e42,0x1e43},{0x1e44,0x1e45},{0x1e46,0x1e47},{0x1e48,0x1e49},{0x1e4a,0x1e4b},{0x1e4c,0x1e4d},{0x1e4e,0x1e4f},{0x1e50,0x1e51},{0x1e52,0x1e53},{0x1e54,0x1e55},
{0x1e56,0x1e57},{0x1e58,0x1e59},{0x1e5a,0x1e5b},{0x1e5c,0x1e5d},{0x1e5e,0x1e5f},{0x1e60,0x1e61},{0x1e62,0x1e63},{0x1e64,0x1e65},{0x1e66,0x1e67},{0x1e68,0x1e69},
{0x1e6a,0x1e6b},{0x1e6c,0x1e6d},{0x1e6e,0x1e6f},{0x1e70,0x1e71},{0x1e72,0x1e73},{0x1e74,0x1e75},{0x1e76,0x1e77},{0x1e78,0x1e79},{0x1e7a,0x1e7b},{0x1e7c,0x1e7d},
{0x1e7e,0x1e7f},{0x1e80,0x1e81},{0x1e82,0x1e83},{0x1e84,0x1e85},{0x1e86,0x1e87},{0x1e88,0x1e89},{0x1e8a,0x1e8b},{0x1e8c,0x1e8d},{0x1e8e,0x1e8f},{0x1e90,0x1e91},
{0x1e92,0x1e93},{0x1e94,0x1e95},{0x1ea0,0x1ea1},{0x1ea2,0x1ea3},{0x1ea4,0x1ea5},{0x1ea6,0x1ea7},{0x1ea8,0x1ea9},{0x1eaa,0x1eab},{0x1eac,0x1ead},{0x1eae,0x1eaf},
{0x1eb0,0x1eb1},{0x1eb2,0x1eb3},{0x1eb4,0x1eb5},{0x1eb6,0x1eb7},{0x1eb8,0x1eb9},{0x1eba,0x1ebb},{0x1ebc,0x1ebd},{0x1ebe,0x1ebf},{0x1ec0,0x1ec1},{0x1ec2,0x1ec3},
{0x1ec4,0x1ec5},{0x1ec6,0x1ec7},{0x1ec8,0x1ec9},{0x1eca,0x1ecb},{0x1ecc,0x1ecd},{0x1ece,0x1ecf},{0x1ed0,0x1ed1},{0x1ed2,0x1ed3},{0x1ed4,0x1ed5},{0x1ed6,0x1ed7},
{0x1ed8,0x1ed9},{0x1eda,0x1edb},{0x1edc,0x1edd},{0x1ede,0x1edf},{0x1ee0,0x1ee1},{0x1ee2,0x1ee3},{0x1ee4,0x1ee5},{0x1ee6,0x1ee7},{0x1ee8,0x1ee9},{0x1eea,0x1eeb},
{0x1eec,0x1eed},{0x1eee,0x1eef},{0x1ef0,0x1ef1},{0x1ef2,0x1ef3},{0x1ef4,0x1ef5},{0x1ef6,0x1ef7},{0x1ef8,0x1ef9},{0x1f08,0x1f00},{0x1f09,0x1f01},{0x1f0a,0x1f02},
{0x1f0b,0x1f03},{0x1f0c,0x1f04},{0x1f0d,0x1f05},{0x1f0e,0x1f06},{0x1f0f,0x1f07},{0x1f18,0x1f10},{0x1f19,0x1f11},{0x1f1a,0x1f12},{0x1f1b,0x1f13},{0x1f1c,0x1f14},
{0x1f1d,0x1f15},{0x1f28,0x1f20},{0x1f29,0x1f21},{0x1f2a,0x1f22},{0x1f2b,0x1f23},{0x1f2c,0x1f24},{0x1f2d,0x1f25},{0x1f2e,0x1f26},{0x1f2f,0x1f27},{0x1f38,0x1f30},
{0x1f39,0x1f31},{0x1f3a,0x1f32},{0x1f3b,0x1f33},{0x1f3c,0x1f34},{0x1f3d,0x1f35},{0x1f3e,0x1f36},{0x1f3f,0x1f37},{0x1f48,0x1f40},{0x1f49,0x1f41},{0x1f4a,0x1f42},
{0x1f4b,0x1f43},{0x1f4c,0x1f44},{0x1f4d,0x1f45},{0x1f59,0x1f51},{0x1f5b,0x1f53},{0x1f5d,0x1f55},{0x1f5f,0x1f57},{0x1f68,0x1f60},{0x1f69,0x1f61},{0x1f6a,0x1f62},
{0x1f6b,0x1f63},{0x1f6c,0x1f64},{0x1f6d,0x1f65},{0x1f6e,0x1f66},{0x1f6f,0x1f67},{0x1f88,0x1f80},{0x1f89,0x1f81},{0x1f8a,0x1f82},{0x1f8b,0x1f83},{0x1f8c,0x1f84},
{0x1f8d,0x1f85},{0x1f8e,0x1f86},{0x1f8f,0x1f87},{0x1f98,0x1f90},{0x1f99,0x1f91},{0x1f9a,0x1f92},{0x1f9b,0x1f93},{0x1f9c,0x1f94},{0x1f9d,0x1f95},{0x1f9e,0x1f96},
{0x1f9f,0x1f97},{0x1fa8,0x1fa0},{0x1fa9,0x1fa1},{0x1faa,0x1fa2},{0x1fab,0x1fa3},{0x1fac,0x1fa4},{0x1fad,0x1fa5},{0x1fae,0x1fa6},{0x1faf,0x1fa7},{0x1fb8,0x1fb0},
{0x1fb9,0x1fb1},{0x1fba,0x1f70},{0x1fbb,0x1f71},{0x1fbc,0x1fb3},{0x1fc8,0x1f72},{0x1fc9,0x1f73},{0x1fca,0x1f74},{0x1fcb,0x1f75},{0x1fcc,0x1fc3},{0x1fd8,0x1fd0},
{0x1fd9,0x1fd1},{0x1fda,0x1f76},{0x1fdb,0x1f77},{0x1fe8,0x1fe0},{0x1fe9,0x1fe1},{0x1fea,0x1f7a},{0x1feb,0x1f7b},{0x1fec,0x1fe5},{0x1ff8,0x1f78},{0x1ff9,0x1f79},
{0x1ffa,0x1f7c},{0x1ffb,0x1f7d},{0x1ffc,0x1ff3},{0x2126,0x3c9},{0x212a,0x6b},{0x212b,0xe5},{0xff21,0xff41},{0xff22,0xff42},{0xff23,0xff43},{0xff24,0xff44},
{0xff25,0xff45},{0xff26,0xff46},{0xff27,0xff47},{0xff28,0xff48},{0xff29,0xff49},{0xff2a,0xff4a},{0xff2b,0xff4b},{0xff2c,0xff4c},{0xff2d,0xff4d},{0xff2e,0xff4e},
{0xff2f,0xff4f},{0xff30,0xff50},{0xff31,0xff51},{0xff32,0xff52},{0xff33,0xff53},{0xff34,0xff54},{0xff35,0xff55},{0xff36,0xff56},{0xff37,0xff57},{0xff38,0xff58},
{0xff39,0xff59},{0xff3a,0xff5a},
};
static const UniPair uniBase[] = {
{0xc0,0x41},{0xc1,0x41},{0xc2,0x41},{0xc3,0x41},{0xc4,0x41},{0xc5,0x41},{0xc7,0x43},{0xc8,0x45},{0xc9,0x45},{0xca,0x45},{0xcb,0x45},{0xcc,0x49},{0xcd,0x49},
{0xce,0x49},{0xcf,0x49},{0xd1,0x4e},{0xd2,0x4f},{0xd3,0x4f},{0xd4,0x4f},{0xd5,0x4f},{0xd6,0x4f},{0xd9,0x55},{0xda,0x55},{0xdb,0x55},{0xdc,0x55},{0xdd,0x59},
{0xe0,0x61},{0xe1,0x61},{0xe2,0x61},{0xe3,0x61},{0xe4,0x61},{0xe5,0x61},{0xe7,0x63},{0xe8,0x65},{0xe9,0x65},{0xea,0x65},{0xeb,0x65},{0xec,0x69},{0xed,0x69},
{0xee,0x69},{0xef,0x69},{0xf1,0x6e},{0xf2,0x6f},{0xf3,0x6f},{0xf4,0x6f},{0xf5,0x6f},{0xf6,0x6f},{0xf9,0x75},{0xfa,0x75},{0xfb,0x75},{0xfc,0x75},{0xfd,0x79},
{0xff,0x79},{0x100,0x41},{0x101,0x61},{0x102,0x41},{0x103,0x61},{0x104,0x41},{0x105,0x61},{0x106,0x43},{0x107,0x63},{0x108,0x43},{0x109,0x63},{0x10a,0x43},
{0x10b,0x63},{0x10c,0x43},{0x10d,0x63},{0x10e,0x44},{0x10f,0x64},{0x112,0x45},{0x113,0x65},{0x114,0x45},{0x115,0x65},{0x116,0x45},{0x117,0x65},{0x118,0x45},
{0x119,0x65},{0x11a,0x45},{0x11b,0x65},{0x11c,0x47},{0x11d,0x67},{0x11e,0x47},{0x11f,0x67},{0x120,0x47},{0x121,0x67},{0x122,0x47},{0x123,0x67},{0x124,0x48},
{0x125,0x68},{0x128,0x49},{0x129,0x69},{0x12a,0x49},{0x12b,0x69},{0x12c,0x49},{0x12d,0x69},{0x12e,0x49},{0x12f,0x69},{0x130,0x49},{0x134,0x4a},{0x135,0x6a},
{0x136,0x4b},{0x137,0x6b},{0x139,0x4c},{0x13a,0x6c},{0x13b,0x4c},{0x13c,0x6c},{0x13d,0x4c},{0x13e,0x6c},{0x143,0x4e},{0x144,0x6e},{0x145,0x4e},{0x146,0x6e},
{0x147,0x4e},{0x148,0x6e},{0x14c,0x4f},{0x14d,0x6f},{0x14e,0x4f},{0x14f,0x6f},{0x150,0x4f},{0x151,0x6f},{0x154,0x52},{0x155,0x72},{0x156,0x52},{0x157,0x72},
{0x158,0x52},{0x159,0x72},{0x15a,0x53},{0x15b,0x73},{0x15c,0x53},{0x15d,0x73},{0x15e,0x53},{0x15f,0x73},{0x160,0x53},{0x161,0x73},{0x162,0x54},{0x163,0x74},
{0x164,0x54},{0x165,0x74},{0x168,0x55},{0x169,0x75},{0x16a,0x55},{0x16b,0x75},{0x16c,0x55},{0x16d,0x75},{0x16e,0x55},{0x16f,0x75},{0x170,0x55},{0x171,0x75},
{0x172,0x55},{0x173,0x75},{0x174,0x57},{0x175,0x77},{0x176,0x59},{0x177,0x79},{0x178,0x59},{0x179,0x5a},{0x17a,0x7a},{0x17b,0x5a},{0x17c,0x7a},{0x17d,0x5a},
{0x17e,0x7a},{0x1a0,0x4f},{0x1a1,0x6f},{0x1af,0x55},{0x1b0,0x75},{0x1cd,0x41},{0x1ce,0x61},{0x1cf,0x49},{0x1d0,0x69},{0x1d1,0x4f},{0x1d2,0x6f},{0x1d3,0x55},
{0x1d4,0x75},{0x1d5,0x55},{0x1d6,0x75},{0x1d7,0x55},{0x1d8,0x75},{0x1d9,0x55},{0x1da,0x75},{0x1db,0x55},{0x1dc,0x75},{0x1de,0x41},{0x1df,0x61},{0x1e0,0x41},
{0x1e1,0x61},{0x1e6,0x47},{0x1e7,0x67},{0x1e8,0x4b},{0x1e9,0x6b},{0x1ea,0x4f},{0x1eb,0x6f},{0x1ec,0x4f},{0x1ed,0x6f},{0x1f0,0x6a},{0x1f4,0x47},{0x1f5,0x67},
{0x1f8,0x4e},{0x1f9,0x6e},{0x1fa,0x41},{0x1fb,0x61},{0x200,0x41},{0x201,0x61},{0x202,0x41},{0x203,0x61},{0x204,0x45},{0x205,0x65},{0x206,0x45},{0x207,0x65},
{0x208,0x49},{0x209,0x69},{0x20a,0x49},{0x20b,0x69},{0x20c,0x4f},{0x20d,0x6f},{0x20e,0x4f},{0x20f,0x6f},{0x210,0x52},{0x211,0x72},{0x212,0x52},{0x213,0x72},
{0x214,0x55},{0x215,0x75},{0x216,0x55},{0x217,0x75},{0x218,0x53},{0x219,0x73},{0x21a,0x54},{0x21b,0x74},{0x21e,0x48},{0x21f,0x68},{0x226,0x41},{0x227,0x61},
{0x228,0x45},{0x229,0x65},{0x22a,0x4f},{0x22b,0x6f},{0x22c,0x4f},{0x22d,0x6f},{0x22e,0x4f},{0x22f,0x6f},{0x230,0x4f},{0x231,0x6f},{0x232,0x59},{0x233,0x79},
{0x1e00,0x41},{0x1e01,0x61},{0x1e02,0x42},{0x1e03,0x62},{0x1e04,0x42},{0x1e05,0x62},{0x1e06,0x42},{0x1e07,0x62},{0x1e08,0x43},{0x1e09,0x63},{0x1e0a,0x44},
{0x1e0b,0x64},{0x1e0c,0x44},{0x1e0d,0x64},{0x1e0e,0x44},{0x1e0f,0x64},{0x1e10,0x44},{0x1e11,0x64},{0x1e12,0x44},{0x1e13,0x64},{0x1e14,0x45},{0x1e15,0x65},
{0x1e16,0x45},{0x1e17,0x65},{0x1e18,0x45},{0x1e19,0x65},{0x1e1a,0x45},{0x1e1b,0x65},{0x1e1c,0x45},{0x1e1d,0x65},{0x1e1e,0x46},{0x1e1f,0x66},{0x1e20,0x47},
{0x1e21,0x67},{0x1e22,0x48},{0x1e23,0x68},{0x1e24,0x48},{0x1e25,0x68},{0x1e26,0x48},{0x1e27,0x68},{0x1e28,0x48},{0x1e29,0x68},{0x1e2a,0x48},{0x1e2b,0x68},
{0x1e2c,0x49},{0x1e2d,0x69},{0x1e2e,0x49},{0x1e2f,0x69},{0x1e30,0x4b},{0x1e31,0x6b},{0x1e32,0x4b},{0x1e33,0x6b},{0x1e34,0x4b},{0x1e35,0x6b},{0x1e36,0x4c},
{0x1e37,0x6c},{0x1e38,0x4c},{0x1e39,0x6c},{0x1e3a,0x4c},{0x1e3b,0x6c},{0x1e3c,0x4c},{0x1e3d,0x6c},{0x1e3e,0x4d},{0x1e3f,0x6d},{0x1e40,0x4d},{0x1e41,0x6d},
{0x1e42,0x4d},{0x1e43,0x6d},{0x1e44,0x4e},{0x1e45,0x6e},{0x1e46,0x4e},{0x1e47,0x6e},{0x1e48,0x4e},{0x1e49,0x6e},{0x1e4a,0x4e},{0x1e4b,0x6e},{0x1e4c,0x4f},
{0x1e4d,0x6f},{0x1e4e,0x4f},{0x1e4f,0x6f},{0x1e50,0x4f},{0x1e51,0x6f},{0x1e52,0x4f},{0x1e53,0x6f},{0x1e54,0x50},{0x1e55,0x70},{0x1e56,0x50},{0x1e57,0x70},
{0x1e58,0x52},{0x1e59,0x72},{0x1e5a,0x52},{0x1e5b,0x72},{0x1e5c,0x52},{0x1e5d,0x72},{0x1e5e,0x52},{0x1e5f,0x72},{0x1e60,0x53},{0x1e61,0x73},{0x1e62,0x53},
{0x1e63,0x73},{0x1e64,0x53},{0x1e65,0x73},{0x1e66,0x53},{0x1e67,0x73},{0x1e68,0x53},{0x1e69,0x73},{0x1e6a,0x54},{0x1e6b,0x74},{0x1e6c,0x54},{0x1e6d,0x74},
{0x1e6e,0x54},{0x1e6f,0x74},{0x1e70,0x54},{0x1e71,0x74},{0x1e72,0x55},{0x1e73,0x75},{0x1e74,0x55},{0x1e75,0x75},{0x1e76,0x55},{0x1e77,0x75},{0x1e78,0x55},
{0x1e79,0x75},{0x1e7a,0x55},{0x1e7b,0x75},{0x1e7c,0x56},{0x1e7d,0x76},{0x1e7e,0x56},{0x1e7f,0x76},{0x1e80,0x57},{0x1e81,0x77},{0x1e82,0x57},{0x1e83,0x77},
{0x1e84,0x57},{0x1e85,0x77},{0x1e86,0x57},{0x1e87,0x77},{0x1e88,0x57},{0x1e89,0x77},{0x1e8a,0x58},{0x1e8b,0x78},{0x1e8c,0x58},{0x1e8d,0x78},{0x1e8e,0x59},
{0x1e8f,0x79},{0x1e90,0x5a},{0x1e91,0x7a},{0x1e92,0x5a},{0x1e93,0x7a},{0x1e94,0x5a},{0x1e95,0x7a},{0x1e96,0x68},{0x1e97,0x74},{0x1e98,0x77},{0x1e99,0x79},
{0x1ea0,0x41},{0x1ea1,0x61},{0x1ea2,0x41},{0x1ea3,0x61},{0x1ea4,0x41},{0x1ea5,0x61},{0x1ea6,0x41},{0x1ea7,0x61},{0x1ea8,0x41},{0x1ea9,0x61},{0x1eaa,0x41},
{0x1eab,0x61},{0x1eac,0x41},{0x1ead,0x61},{0x1eae,0x41},{0x1eaf,0x61},{0x1eb0,0x41},{0x1eb1,0x61},{0x1eb2,0x41},{0x1eb3,0x61},{0x1eb4,0x41},{0x1eb5,0x61},
{0x1eb6,0x41},{0x1eb7,0x61},{0x1eb8,0x45},{0x1eb9,0x65},{0x1eba,0x45},{0x1ebb,0x65},{0x1ebc,0x45},{0x1ebd,0x65},{0x1ebe,0x45},{0x1ebf,0x65},{0x1ec0,0x45},
{0x1ec1,0x65},{0x1ec2,0x45},{0x1ec3,0x65},{0x1ec4,0x45},{0x1ec5,0x65},{0x1ec6,0x45},{0x1ec7,0x65},{0x1ec8,0x49},{0x1ec9,0x69},{0x1eca,0x49},{0x1ecb,0x69},
{0x1ecc,0x4f},{0x1ecd,0x6f},{0x1ece,0x4f},{0x1ecf,0x6f},{0x1ed0,0x4f},{0x1ed1,0x6f},{0x1ed2,0x4f},{0x1ed3,0x6f},{0x1ed4,0x4f},{0x1ed5,0x6f},{0x1ed6,0x4f},
{0x1ed7,0x6f},{0x1ed8,0x4f},{0x1ed9,0x6f},{0x1eda,0x4f},{0x1edb,0x6f},{0x1edc,0x4f},{0x1edd,0x6f},{0x1ede,0x4f},{0x1edf,0x6f},{0x1ee0,0x4f},{0x1ee1,0x6f},
{0x1ee2,0x4f},{0x1ee3,0x6f},{0x1ee4,0x55},{0x1ee5,0x75},{0x1ee6,0x55},{0x1ee7,0x75},{0x1ee8,0x55},{0x1ee9,0x75},{0x1eea,0x55},{0x1eeb,0x75},{0x1eec,0x55},
{0x1eed,0x75},{0x1eee,0x55},{0x1eef,0x75},{0x1ef0,0x55},{0x1ef1,0x75},{0x1ef2,0x59},{0x1ef3,0x79},{0x1ef4,0x59},{0x1ef5,0x79},{0x1ef6,0x59},{0x1ef7,0x79},
{0x1ef8,0x59},{0x1ef9,0x79},
};
}
