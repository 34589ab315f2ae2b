// the glyphs of the built-in font as released: width, height, advance, offset, FNV-1a hash of the bits
{ 1, 1, 7, 0, 0, 0x050c5d1fu }, { 3, 21, 10, 4, -20, 0xfcad6f04u }, { 8, 7, 10, 1, -20, 0x20e0ee6fu }, { 16, 20, 16, 0, -19, 0xd81ff7d1u },
{ 15, 24, 16, 1, -21, 0xb57b8ee1u }, { 24, 21, 26, 1, -20, 0x38d2401bu }, { 16, 21, 19, 2, -20, 0x2246cb87u }, { 3, 7, 6, 2, -20, 0x3b030460u },
{ 7, 27, 10, 2, -20, 0x366de9e6u }, { 7, 27, 10, 1, -20, 0x5025acb7u }, { 9, 8, 11, 1, -20, 0x4a98aab8u }, { 14, 14, 17, 1, -13, 0xae3ad229u },
{ 3, 7, 8, 3, -2, 0x00c95be6u }, { 7, 2, 10, 1, -8, 0x5abcca33u }, { 3, 3, 7, 2, -2, 0xbc9f7804u }, { 8, 21, 8, 0, -20, 0x85e9156fu },
{ 14, 21, 16, 1, -20, 0x901d8f4fu }, { 7, 21, 17, 4, -20, 0x7e1ed56du }, { 14, 21, 16, 1, -20, 0x7f781807u }, { 14, 21, 16, 1, -20, 0xf150fb6du },
{ 13, 21, 16, 1, -20, 0x5859a765u }, { 14, 21, 16, 1, -20, 0xb6cc501fu }, { 14, 21, 16, 1, -20, 0x5f90b9dau }, { 14, 21, 16, 1, -20, 0x67a01c2fu },
{ 14, 21, 16, 1, -20, 0xcf05eed9u }, { 14, 21, 16, 1, -20, 0xda5837c3u }, { 3, 15, 7, 2, -14, 0x3a15703fu }, { 4, 19, 7, 2, -14, 0xf2f7d753u },
{ 14, 14, 17, 1, -13, 0xced6ed05u }, { 14, 7, 17, 1, -9, 0x7ae17165u }, { 15, 14, 17, 1, -13, 0x7e6eed1au }, { 13, 21, 16, 2, -20, 0x8531eef2u },
{ 27, 25, 29, 1, -20, 0x6035075cu }, { 19, 21, 19, 0, -20, 0xae2bc852u }, { 16, 21, 19, 2, -20, 0x67dda81cu }, { 19, 21, 21, 1, -20, 0x0d932cd4u },
{ 17, 21, 20, 2, -20, 0xf22121d9u }, { 15, 21, 18, 2, -20, 0xbef45c82u }, { 14, 21, 17, 2, -20, 0xdac4bacau }, { 20, 21, 22, 1, -20, 0x4e5dd9fdu },
{ 17, 21, 21, 2, -20, 0xe969fe51u }, { 3, 21, 8, 3, -20, 0xf3468c06u }, { 12, 21, 15, 1, -20, 0x03f37bf7u }, { 17, 21, 20, 2, -20, 0xd9512130u },
{ 13, 21, 16, 2, -20, 0xc9ffc12au }, { 21, 21, 25, 2, -20, 0x9105a147u }, { 17, 21, 21, 2, -20, 0x092c0aadu }, { 21, 21, 23, 1, -20, 0xaa0ec79fu },
{ 16, 21, 19, 2, -20, 0xc002afafu }, { 21, 23, 23, 1, -20, 0x28048995u }, { 17, 21, 21, 2, -20, 0x23790269u }, { 17, 21, 19, 1, -20, 0x9b2f42c1u },
{ 15, 21, 18, 2, -20, 0xd52a6e06u }, { 17, 21, 21, 2, -20, 0xff43c9a0u }, { 18, 21, 19, 0, -20, 0x94ae901fu }, { 27, 21, 27, 0, -20, 0xf4451984u },
{ 19, 21, 19, 0, -20, 0x9ec0b723u }, { 19, 21, 20, 1, -20, 0x9f2618b9u }, { 16, 21, 18, 1, -20, 0xbd744db9u }, { 5, 27, 8, 2, -20, 0x50d8e80cu },
{ 8, 21, 8, 0, -20, 0x4db797a7u }, { 5, 27, 8, 1, -20, 0x800d73e4u }, { 11, 11, 14, 1, -20, 0xcf8daa23u }, { 18, 1, 16, -1, 5, 0xf6c7f5c7u },
{ 6, 4, 7, 1, -20, 0xef4d682eu }, { 15, 15, 16, 1, -14, 0xf4212d83u }, { 14, 21, 16, 2, -20, 0x5cbdf95au }, { 13, 15, 15, 1, -14, 0xbdb72542u },
{ 14, 21, 16, 1, -20, 0x8c25a384u }, { 14, 15, 15, 1, -14, 0x59f02fafu }, { 5, 21, 8, 2, -20, 0xb945f617u }, { 14, 21, 16, 1, -14, 0xef57a22fu },
{ 12, 21, 16, 2, -20, 0xc77218b3u }, { 3, 21, 6, 2, -20, 0x101b7293u }, { 6, 27, 7, 0, -20, 0x362a8fffu }, { 13, 21, 15, 2, -20, 0x7bbb816cu },
{ 3, 21, 6, 2, -20, 0xf3468c06u }, { 20, 15, 24, 2, -14, 0x7f282a53u }, { 12, 15, 16, 2, -14, 0xa9312383u }, { 14, 15, 15, 1, -14, 0x65a47de7u },
{ 14, 20, 16, 2, -14, 0x1fd033ebu }, { 14, 20, 16, 1, -14, 0x829c06acu }, { 8, 15, 10, 2, -14, 0xddb57d2au }, { 13, 15, 14, 1, -14, 0xfac6b2e9u },
{ 5, 19, 8, 2, -18, 0x7d275809u }, { 12, 15, 16, 2, -14, 0x05171f93u }, { 14, 15, 14, 0, -14, 0xcb881917u }, { 21, 15, 21, 0, -14, 0xc6326ec8u },
{ 14, 15, 14, 0, -14, 0x993e7d96u }, { 14, 21, 14, 0, -14, 0x586041d3u }, { 12, 15, 14, 1, -14, 0x55d57883u }, { 6, 27, 10, 2, -20, 0x3db0f772u },
{ 1, 27, 7, 3, -20, 0xf2d581eau }, { 6, 27, 10, 3, -20, 0xa27fda2cu }, { 12, 5, 14, 1, -12, 0xf6bd958bu }, 
