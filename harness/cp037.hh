// code page 037, first 128 characters
static const unsigned char CP037[128] = {0x0,0x1,0x2,0x3,0x37,0x2d,0x2e,0x2f,0x16,0x5,0x25,0xb,0xc,0xd,0xe,0xf,0x10,0x11,0x12,0x13,0x3c,0x3d,0x32,0x26,0x18,0x19,0x3f,0x27,0x1c,0x1d,0x1e,0x1f,0x40,0x5a,0x7f,0x7b,0x5b,0x6c,0x50,0x7d,0x4d,0x5d,0x5c,0x4e,0x6b,0x60,0x4b,0x61,0xf0,0xf1,0xf2,0xf3,0xf4,0xf5,0xf6,0xf7,0xf8,0xf9,0x7a,0x5e,0x4c,0x7e,0x6e,0x6f,0x7c,0xc1,0xc2,0xc3,0xc4,0xc5,0xc6,0xc7,0xc8,0xc9,0xd1,0xd2,0xd3,0xd4,0xd5,0xd6,0xd7,0xd8,0xd9,0xe2,0xe3,0xe4,0xe5,0xe6,0xe7,0xe8,0xe9,0xba,0xe0,0xbb,0xb0,0x6d,0x79,0x81,0x82,0x83,0x84,0x85,0x86,0x87,0x88,0x89,0x91,0x92,0x93,0x94,0x95,0x96,0x97,0x98,0x99,0xa2,0xa3,0xa4,0xa5,0xa6,0xa7,0xa8,0xa9,0xc0,0x4f,0xd0,0xa1,0x7};
// its inverse (0x1A where there is no 7-bit character) and whether a code has one (2: a bracket or caret, which a table may leave out)
static const unsigned char INV037[256] = {0x0,0x1,0x2,0x3,0x1a,0x9,0x1a,0x7f,0x1a,0x1a,0x1a,0xb,0xc,0xd,0xe,0xf,0x10,0x11,0x12,0x13,0x1a,0x1a,0x8,0x1a,0x18,0x19,0x1a,0x1a,0x1c,0x1d,0x1e,0x1f,0x1a,0x1a,0x1a,0x1a,0x1a,0xa,0x17,0x1b,0x1a,0x1a,0x1a,0x1a,0x1a,0x5,0x6,0x7,0x1a,0x1a,0x16,0x1a,0x1a,0x1a,0x1a,0x4,0x1a,0x1a,0x1a,0x1a,0x14,0x15,0x1a,0x1a,0x20,0x1a,0x1a,0x1a,0x1a,0x1a,0x1a,0x1a,0x1a,0x1a,0x1a,0x2e,0x3c,0x28,0x2b,0x7c,0x26,0x1a,0x1a,0x1a,0x1a,0x1a,0x1a,0x1a,0x1a,0x1a,0x21,0x24,0x2a,0x29,0x3b,0x1a,0x2d,0x2f,0x1a,0x1a,0x1a,0x1a,0x1a,0x1a,0x1a,0x1a,0x1a,0x2c,0x25,0x5f,0x3e,0x3f,0x1a,0x1a,0x1a,0x1a,0x1a,0x1a,0x1a,0x1a,0x1a,0x60,0x3a,0x23,0x40,0x27,0x3d,0x22,0x1a,0x61,0x62,0x63,0x64,0x65,0x66,0x67,0x68,0x69,0x1a,0x1a,0x1a,0x1a,0x1a,0x1a,0x1a,0x6a,0x6b,0x6c,0x6d,0x6e,0x6f,0x70,0x71,0x72,0x1a,0x1a,0x1a,0x1a,0x1a,0x1a,0x1a,0x7e,0x73,0x74,0x75,0x76,0x77,0x78,0x79,0x7a,0x1a,0x1a,0x1a,0x1a,0x1a,0x1a,0x1a,0x1a,0x1a,0x1a,0x1a,0x1a,0x1a,0x1a,0x1a,0x1a,0x1a,0x1a,0x1a,0x1a,0x1a,0x1a,0x7b,0x41,0x42,0x43,0x44,0x45,0x46,0x47,0x48,0x49,0x1a,0x1a,0x1a,0x1a,0x1a,0x1a,0x7d,0x4a,0x4b,0x4c,0x4d,0x4e,0x4f,0x50,0x51,0x52,0x1a,0x1a,0x1a,0x1a,0x1a,0x1a,0x5c,0x1a,0x53,0x54,0x55,0x56,0x57,0x58,0x59,0x5a,0x1a,0x1a,0x1a,0x1a,0x1a,0x1a,0x30,0x31,0x32,0x33,0x34,0x35,0x36,0x37,0x38,0x39,0x1a,0x1a,0x1a,0x1a,0x1a,0x1a};
static const unsigned char HAS037[256] = {1,1,1,1,0,1,0,1,0,0,0,1,1,1,1,1,1,1,1,1,0,0,1,0,1,1,0,0,1,1,1,1,0,0,0,0,0,1,1,1,0,0,0,0,0,1,1,1,0,0,1,0,0,0,0,1,0,0,0,0,1,1,0,1,1,0,0,0,0,0,0,0,0,0,0,1,1,1,1,1,1,0,0,0,0,0,0,0,0,0,1,1,1,1,1,0,1,1,0,0,0,0,0,0,0,0,0,1,1,1,1,1,0,0,0,0,0,0,0,0,0,1,1,1,1,1,1,1,0,1,1,1,1,1,1,1,1,1,0,0,0,0,0,0,0,1,1,1,1,1,1,1,1,1,0,0,0,0,0,0,0,1,1,1,1,1,1,1,1,1,0,0,0,0,0,0,2,0,0,0,0,0,0,0,0,0,2,2,0,0,0,0,1,1,1,1,1,1,1,1,1,1,0,0,0,0,0,0,1,1,1,1,1,1,1,1,1,1,0,0,0,0,0,0,1,0,1,1,1,1,1,1,1,1,0,0,0,0,0,0,1,1,1,1,1,1,1,1,1,1,0,0,0,0,0,0};
