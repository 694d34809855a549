// Reference tables, transcribed once and reviewed; independent of the code under check.
static const u8 kPty_len[32]={6,4,15,11,5,9,5,7,7,6,9,10,14,15,17,11,7,7,21,14,8,8,6,7,10,13,14,12,10,11,10,5};
static const u8 kPty_dat[32][22]={{78,111,32,80,84,89,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{78,101,119,115,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{67,117,114,114,101,110,116,32,97,102,102,97,105,114,115,0,0,0,0,0,0,0},
{73,110,102,111,114,109,97,116,105,111,110,0,0,0,0,0,0,0,0,0,0,0},
{83,112,111,114,116,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{69,100,117,99,97,116,105,111,110,0,0,0,0,0,0,0,0,0,0,0,0,0},
{68,114,97,109,97,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{67,117,108,116,117,114,101,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{83,99,105,101,110,99,101,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{86,97,114,105,101,100,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{80,111,112,32,109,117,115,105,99,0,0,0,0,0,0,0,0,0,0,0,0,0},
{82,111,99,107,32,109,117,115,105,99,0,0,0,0,0,0,0,0,0,0,0,0},
{69,97,115,121,32,108,105,115,116,101,110,105,110,103,0,0,0,0,0,0,0,0},
{76,105,103,104,116,32,99,108,97,115,115,105,99,97,108,0,0,0,0,0,0,0},
{83,101,114,105,111,117,115,32,99,108,97,115,115,105,99,97,108,0,0,0,0,0},
{79,116,104,101,114,32,109,117,115,105,99,0,0,0,0,0,0,0,0,0,0,0},
{87,101,97,116,104,101,114,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{70,105,110,97,110,99,101,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{67,104,105,108,100,114,101,110,39,115,32,112,114,111,103,114,97,109,109,101,115,0},
{83,111,99,105,97,108,32,97,102,102,97,105,114,115,0,0,0,0,0,0,0,0},
{82,101,108,105,103,105,111,110,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{80,104,111,110,101,45,105,110,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{84,114,97,118,101,108,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{76,101,105,115,117,114,101,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{74,97,122,122,32,109,117,115,105,99,0,0,0,0,0,0,0,0,0,0,0,0},
{67,111,117,110,116,114,121,32,109,117,115,105,99,0,0,0,0,0,0,0,0,0},
{78,97,116,105,111,110,97,108,32,109,117,115,105,99,0,0,0,0,0,0,0,0},
{79,108,100,105,101,115,32,109,117,115,105,99,0,0,0,0,0,0,0,0,0,0},
{70,111,108,107,32,109,117,115,105,99,0,0,0,0,0,0,0,0,0,0,0,0},
{68,111,99,117,109,101,110,116,97,114,121,0,0,0,0,0,0,0,0,0,0,0},
{65,108,97,114,109,32,116,101,115,116,0,0,0,0,0,0,0,0,0,0,0,0},
{65,108,97,114,109,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}};
static const u8 kPtyRbds_len[32]={6,4,11,6,4,4,12,10,9,6,7,6,4,9,4,9,16,21,8,15,14,11,6,7,12,13,7,0,0,7,14,9};
static const u8 kPtyRbds_dat[32][22]={{78,111,32,80,84,89,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{78,101,119,115,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{73,110,102,111,114,109,97,116,105,111,110,0,0,0,0,0,0,0,0,0,0,0},
{83,112,111,114,116,115,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{84,97,108,107,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{82,111,99,107,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{67,108,97,115,115,105,99,32,114,111,99,107,0,0,0,0,0,0,0,0,0,0},
{65,100,117,108,116,32,104,105,116,115,0,0,0,0,0,0,0,0,0,0,0,0},
{83,111,102,116,32,114,111,99,107,0,0,0,0,0,0,0,0,0,0,0,0,0},
{84,111,112,32,52,48,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{67,111,117,110,116,114,121,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{79,108,100,105,101,115,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{83,111,102,116,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{78,111,115,116,97,108,103,105,97,0,0,0,0,0,0,0,0,0,0,0,0,0},
{74,97,122,122,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{67,108,97,115,115,105,99,97,108,0,0,0,0,0,0,0,0,0,0,0,0,0},
{82,104,121,116,104,109,32,97,110,100,32,98,108,117,101,115,0,0,0,0,0,0},
{83,111,102,116,32,114,104,121,116,104,109,32,97,110,100,32,98,108,117,101,115,0},
{76,97,110,103,117,97,103,101,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{82,101,108,105,103,105,111,117,115,32,109,117,115,105,99,0,0,0,0,0,0,0},
{82,101,108,105,103,105,111,117,115,32,116,97,108,107,0,0,0,0,0,0,0,0},
{80,101,114,115,111,110,97,108,105,116,121,0,0,0,0,0,0,0,0,0,0,0},
{80,117,98,108,105,99,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{67,111,108,108,101,103,101,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{83,112,97,110,105,115,104,32,116,97,108,107,0,0,0,0,0,0,0,0,0,0},
{83,112,97,110,105,115,104,32,109,117,115,105,99,0,0,0,0,0,0,0,0,0},
{72,105,112,32,104,111,112,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{87,101,97,116,104,101,114,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{69,109,101,114,103,101,110,99,121,32,116,101,115,116,0,0,0,0,0,0,0,0},
{69,109,101,114,103,101,110,99,121,0,0,0,0,0,0,0,0,0,0,0,0,0}};
static const u8 kLang_len[128]={7,8,6,7,8,5,5,6,6,7,7,9,8,6,7,6,7,5,6,8,9,7,7,5,7,13,10,9,7,5,9,7,6,10,8,7,7,6,7,7,7,7,7,7,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,10,0,0,0,0,4,10,5,4,9,4,6,5,5,7,7,11,6,9,5,11,9,7,7,6,7,7,10,5,6,7,7,9,9,9,10,7,6,5,6,7,8,10,5,6,5,6,8,5,8,6,4,7,7,7,9,7,11,7,10,8,8,6,7};
static const u8 kLang_dat[128][14]={{85,110,107,110,111,119,110,0,0,0,0,0,0,0},
{65,108,98,97,110,105,97,110,0,0,0,0,0,0},
{66,114,101,116,111,110,0,0,0,0,0,0,0,0},
{67,97,116,97,108,97,110,0,0,0,0,0,0,0},
{67,114,111,97,116,105,97,110,0,0,0,0,0,0},
{87,101,108,115,104,0,0,0,0,0,0,0,0,0},
{67,122,101,99,104,0,0,0,0,0,0,0,0,0},
{68,97,110,105,115,104,0,0,0,0,0,0,0,0},
{71,101,114,109,97,110,0,0,0,0,0,0,0,0},
{69,110,103,108,105,115,104,0,0,0,0,0,0,0},
{83,112,97,110,105,115,104,0,0,0,0,0,0,0},
{69,115,112,101,114,97,110,116,111,0,0,0,0,0},
{69,115,116,111,110,105,97,110,0,0,0,0,0,0},
{66,97,115,113,117,101,0,0,0,0,0,0,0,0},
{70,97,114,111,101,115,101,0,0,0,0,0,0,0},
{70,114,101,110,99,104,0,0,0,0,0,0,0,0},
{70,114,105,115,105,97,110,0,0,0,0,0,0,0},
{73,114,105,115,104,0,0,0,0,0,0,0,0,0},
{71,97,101,108,105,99,0,0,0,0,0,0,0,0},
{71,97,108,105,99,105,97,110,0,0,0,0,0,0},
{73,99,101,108,97,110,100,105,99,0,0,0,0,0},
{73,116,97,108,105,97,110,0,0,0,0,0,0,0},
{76,97,112,112,105,115,104,0,0,0,0,0,0,0},
{76,97,116,105,110,0,0,0,0,0,0,0,0,0},
{76,97,116,118,105,97,110,0,0,0,0,0,0,0},
{76,117,120,101,109,98,111,117,114,103,105,97,110,0},
{76,105,116,104,117,97,110,105,97,110,0,0,0,0},
{72,117,110,103,97,114,105,97,110,0,0,0,0,0},
{77,97,108,116,101,115,101,0,0,0,0,0,0,0},
{68,117,116,99,104,0,0,0,0,0,0,0,0,0},
{78,111,114,119,101,103,105,97,110,0,0,0,0,0},
{79,99,99,105,116,97,110,0,0,0,0,0,0,0},
{80,111,108,105,115,104,0,0,0,0,0,0,0,0},
{80,111,114,116,117,103,117,101,115,101,0,0,0,0},
{82,111,109,97,110,105,97,110,0,0,0,0,0,0},
{82,111,109,97,110,115,104,0,0,0,0,0,0,0},
{83,101,114,98,105,97,110,0,0,0,0,0,0,0},
{83,108,111,118,97,107,0,0,0,0,0,0,0,0},
{83,108,111,118,101,110,101,0,0,0,0,0,0,0},
{70,105,110,110,105,115,104,0,0,0,0,0,0,0},
{83,119,101,100,105,115,104,0,0,0,0,0,0,0},
{84,117,114,107,105,115,104,0,0,0,0,0,0,0},
{70,108,101,109,105,115,104,0,0,0,0,0,0,0},
{87,97,108,108,111,111,110,0,0,0,0,0,0,0},
{0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{66,97,99,107,103,114,111,117,110,100,0,0,0,0},
{0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{90,117,108,117,0,0,0,0,0,0,0,0,0,0},
{86,105,101,116,110,97,109,101,115,101,0,0,0,0},
{85,122,98,101,107,0,0,0,0,0,0,0,0,0},
{85,114,100,117,0,0,0,0,0,0,0,0,0,0},
{85,107,114,97,105,110,105,97,110,0,0,0,0,0},
{84,104,97,105,0,0,0,0,0,0,0,0,0,0},
{84,101,108,117,103,117,0,0,0,0,0,0,0,0},
{84,97,116,97,114,0,0,0,0,0,0,0,0,0},
{84,97,109,105,108,0,0,0,0,0,0,0,0,0},
{84,97,100,122,104,105,107,0,0,0,0,0,0,0},
{83,119,97,104,105,108,105,0,0,0,0,0,0,0},
{83,114,97,110,97,110,84,111,110,103,111,0,0,0},
{83,111,109,97,108,105,0,0,0,0,0,0,0,0},
{83,105,110,104,97,108,101,115,101,0,0,0,0,0},
{83,104,111,110,97,0,0,0,0,0,0,0,0,0},
{83,101,114,98,111,45,67,114,111,97,116,0,0,0},
{82,117,116,104,101,110,105,97,110,0,0,0,0,0},
{82,117,115,115,105,97,110,0,0,0,0,0,0,0},
{81,117,101,99,104,117,97,0,0,0,0,0,0,0},
{80,117,115,104,116,117,0,0,0,0,0,0,0,0},
{80,117,110,106,97,98,105,0,0,0,0,0,0,0},
{80,101,114,115,105,97,110,0,0,0,0,0,0,0},
{80,97,112,97,109,105,101,110,116,111,0,0,0,0},
{79,114,105,121,97,0,0,0,0,0,0,0,0,0},
{78,101,112,97,108,105,0,0,0,0,0,0,0,0},
{78,100,101,98,101,108,101,0,0,0,0,0,0,0},
{77,97,114,97,116,104,105,0,0,0,0,0,0,0},
{77,111,108,100,111,118,105,97,110,0,0,0,0,0},
{77,97,108,97,121,115,105,97,110,0,0,0,0,0},
{77,97,108,97,103,97,115,97,121,0,0,0,0,0},
{77,97,99,101,100,111,110,105,97,110,0,0,0,0},
{76,97,111,116,105,97,110,0,0,0,0,0,0,0},
{75,111,114,101,97,110,0,0,0,0,0,0,0,0},
{75,104,109,101,114,0,0,0,0,0,0,0,0,0},
{75,97,122,97,107,104,0,0,0,0,0,0,0,0},
{75,97,110,110,97,100,97,0,0,0,0,0,0,0},
{74,97,112,97,110,101,115,101,0,0,0,0,0,0},
{73,110,100,111,110,101,115,105,97,110,0,0,0,0},
{72,105,110,100,105,0,0,0,0,0,0,0,0,0},
{72,101,98,114,101,119,0,0,0,0,0,0,0,0},
{72,97,117,115,97,0,0,0,0,0,0,0,0,0},
{71,117,114,97,110,105,0,0,0,0,0,0,0,0},
{71,117,106,117,114,97,116,105,0,0,0,0,0,0},
{71,114,101,101,107,0,0,0,0,0,0,0,0,0},
{71,101,111,114,103,105,97,110,0,0,0,0,0,0},
{70,117,108,97,110,105,0,0,0,0,0,0,0,0},
{68,97,114,105,0,0,0,0,0,0,0,0,0,0},
{67,104,117,114,97,115,104,0,0,0,0,0,0,0},
{67,104,105,110,101,115,101,0,0,0,0,0,0,0},
{66,117,114,109,101,115,101,0,0,0,0,0,0,0},
{66,117,108,103,97,114,105,97,110,0,0,0,0,0},
{66,101,110,103,97,108,105,0,0,0,0,0,0,0},
{66,101,108,111,114,117,115,115,105,97,110,0,0,0},
{66,97,109,98,111,114,97,0,0,0,0,0,0,0},
{65,122,101,114,98,97,105,106,97,110,0,0,0,0},
{65,115,115,97,109,101,115,101,0,0,0,0,0,0},
{65,114,109,101,110,105,97,110,0,0,0,0,0,0},
{65,114,97,98,105,99,0,0,0,0,0,0,0,0},
{65,109,104,97,114,105,99,0,0,0,0,0,0,0}};
static const u8 kCont_len[64]={11,10,10,16,11,16,13,14,13,9,12,10,9,15,16,10,12,14,20,11,10,10,11,7,14,12,12,10,18,8,10,17,16,13,14,14,14,25,19,18,20,13,12,11,10,9,13,12,11,9,4,11,13,11,7,7,7,7,7,5,11,10,8,8};
static const u8 kCont_dat[64][26]={{100,117,109,109,121,95,99,108,97,115,115,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{105,116,101,109,46,116,105,116,108,101,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{105,116,101,109,46,97,108,98,117,109,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{105,116,101,109,46,116,114,97,99,107,110,117,109,98,101,114,0,0,0,0,0,0,0,0,0,0},
{105,116,101,109,46,97,114,116,105,115,116,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{105,116,101,109,46,99,111,109,112,111,115,105,116,105,111,110,0,0,0,0,0,0,0,0,0,0},
{105,116,101,109,46,109,111,118,101,109,101,110,116,0,0,0,0,0,0,0,0,0,0,0,0,0},
{105,116,101,109,46,99,111,110,100,117,99,116,111,114,0,0,0,0,0,0,0,0,0,0,0,0},
{105,116,101,109,46,99,111,109,112,111,115,101,114,0,0,0,0,0,0,0,0,0,0,0,0,0},
{105,116,101,109,46,98,97,110,100,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{105,116,101,109,46,99,111,109,109,101,110,116,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{105,116,101,109,46,103,101,110,114,101,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{105,110,102,111,46,110,101,119,115,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{105,110,102,111,46,110,101,119,115,46,108,111,99,97,108,0,0,0,0,0,0,0,0,0,0,0},
{105,110,102,111,46,115,116,111,99,107,109,97,114,107,101,116,0,0,0,0,0,0,0,0,0,0},
{105,110,102,111,46,115,112,111,114,116,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{105,110,102,111,46,108,111,116,116,101,114,121,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{105,110,102,111,46,104,111,114,111,115,99,111,112,101,0,0,0,0,0,0,0,0,0,0,0,0},
{105,110,102,111,46,100,97,105,108,121,95,100,105,118,101,114,115,105,111,110,0,0,0,0,0,0},
{105,110,102,111,46,104,101,97,108,116,104,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{105,110,102,111,46,101,118,101,110,116,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{105,110,102,111,46,115,99,101,110,101,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{105,110,102,111,46,99,105,110,101,109,97,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{105,110,102,111,46,116,118,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{105,110,102,111,46,100,97,116,101,95,116,105,109,101,0,0,0,0,0,0,0,0,0,0,0,0},
{105,110,102,111,46,119,101,97,116,104,101,114,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{105,110,102,111,46,116,114,97,102,102,105,99,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{105,110,102,111,46,97,108,97,114,109,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{105,110,102,111,46,97,100,118,101,114,116,105,115,101,109,101,110,116,0,0,0,0,0,0,0,0},
{105,110,102,111,46,117,114,108,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{105,110,102,111,46,111,116,104,101,114,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{115,116,97,116,105,111,110,110,97,109,101,46,115,104,111,114,116,0,0,0,0,0,0,0,0,0},
{115,116,97,116,105,111,110,110,97,109,101,46,108,111,110,103,0,0,0,0,0,0,0,0,0,0},
{112,114,111,103,114,97,109,109,101,46,110,111,119,0,0,0,0,0,0,0,0,0,0,0,0,0},
{112,114,111,103,114,97,109,109,101,46,110,101,120,116,0,0,0,0,0,0,0,0,0,0,0,0},
{112,114,111,103,114,97,109,109,101,46,112,97,114,116,0,0,0,0,0,0,0,0,0,0,0,0},
{112,114,111,103,114,97,109,109,101,46,104,111,115,116,0,0,0,0,0,0,0,0,0,0,0,0},
{112,114,111,103,114,97,109,109,101,46,101,100,105,116,111,114,105,97,108,95,115,116,97,102,102,0},
{112,114,111,103,114,97,109,109,101,46,102,114,101,113,117,101,110,99,121,0,0,0,0,0,0,0},
{112,114,111,103,114,97,109,109,101,46,104,111,109,101,112,97,103,101,0,0,0,0,0,0,0,0},
{112,114,111,103,114,97,109,109,101,46,115,117,98,99,104,97,110,110,101,108,0,0,0,0,0,0},
{112,104,111,110,101,46,104,111,116,108,105,110,101,0,0,0,0,0,0,0,0,0,0,0,0,0},
{112,104,111,110,101,46,115,116,117,100,105,111,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{112,104,111,110,101,46,111,116,104,101,114,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{115,109,115,46,115,116,117,100,105,111,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{115,109,115,46,111,116,104,101,114,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{101,109,97,105,108,46,104,111,116,108,105,110,101,0,0,0,0,0,0,0,0,0,0,0,0,0},
{101,109,97,105,108,46,115,116,117,100,105,111,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{101,109,97,105,108,46,111,116,104,101,114,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{109,109,115,46,111,116,104,101,114,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{99,104,97,116,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{99,104,97,116,46,99,101,110,116,114,101,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{118,111,116,101,46,113,117,101,115,116,105,111,110,0,0,0,0,0,0,0,0,0,0,0,0,0},
{118,111,116,101,46,99,101,110,116,114,101,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{117,110,107,110,111,119,110,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{117,110,107,110,111,119,110,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{117,110,107,110,111,119,110,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{117,110,107,110,111,119,110,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{117,110,107,110,111,119,110,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{112,108,97,99,101,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{97,112,112,111,105,110,116,109,101,110,116,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{105,100,101,110,116,105,102,105,101,114,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{112,117,114,99,104,97,115,101,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{103,101,116,95,100,97,116,97,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}};
static const u16 kApp_id[65]={0x0000,0x0093,0x0BCB,0x0C24,0x0CC1,0x0D45,0x0D8B,0x0E2C,0x0E31,0x0F87,0x125F,0x1BDA,0x1C5E,0x1C68,0x1CB1,0x1D47,0x1DC2,0x1DC5,0x1E8F,0x4400,0x4AA1,0x4AB7,0x4BA2,0x4BD7,0x4BD8,0x4C59,0x4D87,0x4D95,0x4D9A,0x50DD,0x5757,0x6363,0x6365,0x6552,0x6A7A,0x7373,0xA112,0xA911,0xABCF,0xC350,0xC3A1,0xC3B0,0xC3C3,0xC4D4,0xC549,0xC563,0xC6A7,0xC737,0xCB73,0xCB97,0xCC21,0xCD46,0xCD47,0xCD9E,0xCE6B,0xE123,0xE1C1,0xE319,0xE411,0xE440,0xE4A6,0xE5D7,0xE911,0xFF7F,0xFF80};
static const u8 kApp_len[65]={4,32,36,16,44,33,17,16,17,16,37,16,17,25,17,16,9,30,17,9,6,16,16,16,28,9,27,17,17,48,24,39,27,24,16,29,17,38,19,26,22,14,19,4,28,8,31,29,9,17,9,16,16,16,30,11,11,17,15,17,17,16,17,17,17};
static const u8 kApp_dat[65][49]={{78,111,110,101,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{67,114,111,115,115,32,114,101,102,101,114,101,110,99,105,110,103,32,68,65,66,32,119,105,116,104,105,110,32,82,68,83,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{76,101,105,115,117,114,101,32,38,32,80,114,97,99,116,105,99,97,108,32,73,110,102,111,32,102,111,114,32,68,114,105,118,101,114,115,0,0,0,0,0,0,0,0,0,0,0,0,0},
{69,76,69,67,84,82,65,66,69,76,45,68,83,77,32,55,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{87,105,114,101,108,101,115,115,32,80,108,97,121,103,114,111,117,110,100,32,98,114,111,97,100,99,97,115,116,32,99,111,110,116,114,111,108,32,115,105,103,110,97,108,0,0,0,0,0},
{82,68,83,45,84,77,67,58,32,65,76,69,82,84,45,67,32,47,32,69,78,32,73,83,79,32,49,52,56,49,57,45,49,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{69,76,69,67,84,82,65,66,69,76,45,68,83,77,32,49,56,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{69,76,69,67,84,82,65,66,69,76,45,68,83,77,32,51,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{69,76,69,67,84,82,65,66,69,76,45,68,83,77,32,49,51,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{69,76,69,67,84,82,65,66,69,76,45,68,83,77,32,50,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{73,45,70,77,45,82,68,83,32,102,111,114,32,102,105,120,101,100,32,97,110,100,32,109,111,98,105,108,101,32,100,101,118,105,99,101,115,0,0,0,0,0,0,0,0,0,0,0,0},
{69,76,69,67,84,82,65,66,69,76,45,68,83,77,32,49,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{69,76,69,67,84,82,65,66,69,76,45,68,83,77,32,50,48,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{73,84,73,83,32,73,110,45,118,101,104,105,99,108,101,32,100,97,116,97,32,98,97,115,101,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{69,76,69,67,84,82,65,66,69,76,45,68,83,77,32,49,48,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{69,76,69,67,84,82,65,66,69,76,45,68,83,77,32,52,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{67,73,84,73,66,85,83,32,52,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{69,110,99,114,121,112,116,101,100,32,84,84,73,32,117,115,105,110,103,32,65,76,69,82,84,45,80,108,117,115,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{69,76,69,67,84,82,65,66,69,76,45,68,83,77,32,49,55,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{82,68,83,45,76,105,103,104,116,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{82,65,83,65,78,84,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{69,76,69,67,84,82,65,66,69,76,45,68,83,77,32,57,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{69,76,69,67,84,82,65,66,69,76,45,68,83,77,32,53,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{82,97,100,105,111,84,101,120,116,43,32,40,82,84,43,41,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{82,97,100,105,111,84,101,120,116,32,80,108,117,115,32,47,32,82,84,43,32,102,111,114,32,101,82,84,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{67,73,84,73,66,85,83,32,50,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{82,97,100,105,111,32,67,111,109,109,101,114,99,101,32,83,121,115,116,101,109,32,40,82,67,83,41,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{69,76,69,67,84,82,65,66,69,76,45,68,83,77,32,49,54,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{69,76,69,67,84,82,65,66,69,76,45,68,83,77,32,49,49,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{84,111,32,119,97,114,110,32,112,101,111,112,108,101,32,105,110,32,99,97,115,101,32,111,102,32,100,105,115,97,115,116,101,114,115,32,111,114,32,101,109,101,114,103,101,110,99,121,0},
{80,101,114,115,111,110,97,108,32,119,101,97,116,104,101,114,32,115,116,97,116,105,111,110,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{72,121,98,114,97,100,105,111,32,82,68,83,45,78,101,116,40,102,111,114,32,116,101,115,116,105,110,103,32,117,115,101,44,32,111,110,108,121,41,0,0,0,0,0,0,0,0,0,0},
{82,68,83,50,32,226,128,147,32,57,32,98,105,116,32,65,70,32,108,105,115,116,115,32,79,68,65,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{69,110,104,97,110,99,101,100,32,82,97,100,105,111,84,101,120,116,32,40,101,82,84,41,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{87,97,114,110,105,110,103,32,114,101,99,101,105,118,101,114,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{69,110,104,97,110,99,101,100,32,101,97,114,108,121,32,119,97,114,110,105,110,103,32,115,121,115,116,101,109,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{78,76,32,95,32,65,108,101,114,116,32,115,121,115,116,101,109,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{68,97,116,97,32,70,77,32,83,101,108,101,99,116,105,118,101,32,77,117,108,116,105,112,111,105,110,116,32,77,101,115,115,97,103,105,110,103,0,0,0,0,0,0,0,0,0,0,0},
{82,70,32,80,111,119,101,114,32,77,111,110,105,116,111,114,105,110,103,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{78,82,83,67,32,83,111,110,103,32,84,105,116,108,101,32,97,110,100,32,65,114,116,105,115,116,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{80,101,114,115,111,110,97,108,32,82,97,100,105,111,32,83,101,114,118,105,99,101,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{105,84,117,110,101,115,32,84,97,103,103,105,110,103,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{78,65,86,84,69,81,32,84,114,97,102,102,105,99,32,80,108,117,115,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{101,69,65,83,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{83,109,97,114,116,32,71,114,105,100,32,66,114,111,97,100,99,97,115,116,32,67,104,97,110,110,101,108,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{73,68,32,76,111,103,105,99,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{86,101,105,108,32,69,110,97,98,108,101,100,32,73,110,116,101,114,97,99,116,105,118,101,32,68,101,118,105,99,101,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{85,116,105,108,105,116,121,32,77,101,115,115,97,103,101,32,67,104,97,110,110,101,108,32,40,85,77,67,41,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{67,73,84,73,66,85,83,32,49,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{69,76,69,67,84,82,65,66,69,76,45,68,83,77,32,49,52,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{67,73,84,73,66,85,83,32,51,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{82,68,83,45,84,77,67,58,32,65,76,69,82,84,45,67,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{82,68,83,45,84,77,67,58,32,65,76,69,82,84,45,67,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{69,76,69,67,84,82,65,66,69,76,45,68,83,77,32,56,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{69,110,99,114,121,112,116,101,100,32,84,84,73,32,117,115,105,110,103,32,65,76,69,82,84,45,80,108,117,115,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{65,80,83,32,71,97,116,101,119,97,121,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{65,99,116,105,111,110,32,99,111,100,101,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{69,76,69,67,84,82,65,66,69,76,45,68,83,77,32,49,50,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{66,101,97,99,111,110,32,100,111,119,110,108,105,110,107,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{69,76,69,67,84,82,65,66,69,76,45,68,83,77,32,49,53,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{69,76,69,67,84,82,65,66,69,76,45,68,83,77,32,49,57,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{69,76,69,67,84,82,65,66,69,76,45,68,83,77,32,54,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{69,65,83,32,111,112,101,110,32,112,114,111,116,111,99,111,108,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{82,70,84,58,32,83,116,97,116,105,111,110,32,108,111,103,111,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{82,70,84,43,32,40,119,111,114,107,32,116,105,116,108,101,41,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}};
static const u8 kEcc[20]={0xA0,0xA1,0xA2,0xA3,0xA4,0xA5,0xA6,0xD0,0xD1,0xD2,0xD3,0xE0,0xE1,0xE2,0xE3,0xE4,0xF0,0xF1,0xF2,0xF3};
static const char kCountry[20][15][3]={{"us", "us", "us", "us", "us", "us", "us", "us", "us", "us", "us", "--", "us", "us", "--"},
{"--", "--", "--", "--", "--", "--", "--", "--", "--", "--", "ca", "ca", "ca", "ca", "gl"},
{"ai", "ag", "ec", "fk", "bb", "bz", "ky", "cr", "cu", "ar", "br", "bm", "an", "gp", "bs"},
{"bo", "co", "jm", "mq", "gf", "py", "ni", "--", "pa", "dm", "do", "cl", "gd", "tc", "gy"},
{"gt", "hn", "aw", "--", "ms", "tt", "pe", "sr", "uy", "kn", "lc", "sv", "ht", "ve", "--"},
{"--", "--", "--", "--", "--", "--", "--", "--", "--", "--", "mx", "vc", "mx", "mx", "mx"},
{"--", "--", "--", "--", "--", "--", "--", "--", "--", "--", "--", "--", "--", "--", "pm"},
{"cm", "cf", "dj", "mg", "ml", "ao", "gq", "ga", "gn", "za", "bf", "cg", "tg", "bj", "mw"},
{"na", "lr", "gh", "mr", "st", "cv", "sn", "gm", "bi", "--", "bw", "km", "tz", "et", "ng"},
{"sl", "zw", "mz", "ug", "sz", "ke", "so", "ne", "td", "gw", "zr", "ci", "tz", "zm", "--"},
{"--", "--", "eh", "--", "rw", "ls", "--", "sc", "--", "mu", "--", "sd", "--", "--", "--"},
{"de", "dz", "ad", "il", "it", "be", "ru", "ps", "al", "at", "hu", "mt", "de", "--", "eg"},
{"gr", "cy", "sm", "ch", "jo", "fi", "lu", "bg", "dk", "gi", "iq", "gb", "ly", "ro", "fr"},
{"ma", "cz", "pl", "va", "sk", "sy", "tn", "--", "li", "is", "mc", "lt", "rs", "es", "no"},
{"me", "ie", "tr", "mk", "--", "--", "--", "nl", "lv", "lb", "az", "hr", "kz", "se", "by"},
{"md", "ee", "kg", "--", "--", "ua", "ks", "pt", "si", "am", "--", "ge", "--", "--", "ba"},
{"au", "au", "au", "au", "au", "au", "au", "au", "sa", "af", "mm", "cn", "kp", "bh", "my"},
{"ki", "bt", "bd", "pk", "fj", "om", "nr", "ir", "nz", "sb", "bn", "lk", "tw", "kr", "hk"},
{"kw", "qa", "kh", "ws", "in", "mo", "vn", "ph", "jp", "sg", "mv", "id", "ae", "np", "vu"},
{"la", "th", "to", "--", "--", "--", "--", "--", "pg", "--", "ye", "--", "--", "fm", "mn"}};
static const u16 kThree_pi[72]={0x99A5,0x9992,0x9978,0x99A6,0x9993,0x999C,0x9990,0x9964,0x999D,0x99A7,0x9994,0x997A,0x9950,0x9965,0x99B3,0x9951,0x9966,0x997B,0x9952,0x9995,0x99B4,0x9953,0x9967,0x99B5,0x9991,0x9968,0x997C,0x9954,0x9996,0x997D,0x9955,0x9997,0x997E,0x9956,0x996B,0x999E,0x9957,0x9999,0x999F,0x99AA,0x996D,0x9981,0x9958,0x996E,0x99A0,0x9959,0x996F,0x9983,0x995A,0x999A,0x9984,0x995B,0x9971,0x99A1,0x995C,0x9972,0x99B9,0x995D,0x9973,0x99A2,0x995E,0x999B,0x99A3,0x995F,0x9975,0x99A4,0x9960,0x9976,0x9988,0x99AB,0x9977,0x9989};
static const char kThree[72][4]={"KBW","KOY","WHO","KCY","KPQ","WHP","KDB","KQV","WIL","KDF","KSD","WIP","KEX","KSL","WIS","KFH","KUJ","WJR","KFI","KUT","WJW","KGA","KVI","WJZ","KGB","KWG","WKY","KGO","KXL","WLS","KGU","KXO","WLW","KGW","KYW","WMC","KGY","WBT","WMT","KHQ","WBZ","WOC","KID","WDZ","WOI","KIT","WEW","WOL","KJR","WGH","WOR","KLO","WGL","WOW","KLZ","WGN","WRC","KMA","WGR","WRR","KMJ","WGY","WSB","KNX","WHA","WSM","KOA","WHB","WWJ","KOB","WHK","WWL"};
static const u16 kLinked_pi[14]={0xB001,0xB002,0xB003,0xB004,0xB005,0xB006,0xB007,0xB008,0xB009,0xB00A,0xB00B,0xB00C,0xB00D,0xB00E};
static const u8 kLinked_len[14]={5,23,23,46,43,3,3,3,3,5,5,5,5,5};
static const u8 kLinked_dat[14][47]={{78,80,82,45,49,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{67,66,67,32,69,110,103,108,105,115,104,32,45,32,82,97,100,105,111,32,79,110,101,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{67,66,67,32,69,110,103,108,105,115,104,32,45,32,82,97,100,105,111,32,84,119,111,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{67,66,67,32,70,114,101,110,99,104,32,61,62,32,82,97,100,105,111,45,67,97,110,97,100,97,32,45,32,80,114,101,109,105,195,168,114,101,32,67,104,97,195,174,110,101,0},
{67,66,67,32,70,114,101,110,99,104,32,61,62,32,82,97,100,105,111,45,67,97,110,97,100,97,32,45,32,69,115,112,97,99,101,32,77,117,115,105,113,117,101,0,0,0,0},
{67,66,67,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{67,66,67,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{67,66,67,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{67,66,67,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{78,80,82,45,50,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{78,80,82,45,51,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{78,80,82,45,52,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{78,80,82,45,53,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
{78,80,82,45,54,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}};
const u16 kG0[256]={0x20,0x20,0x20,0x20,0x20,0x20,0x20,0x20,0x20,0x20,0xa,0x20,0x20,0xd,0x20,0x20,0x20,0x20,0x20,0x20,0x20,0x20,0x20,0x20,0x20,0x20,0x20,0x20,0x20,0x20,0x20,0xad,0x20,0x21,0x22,0x23,0xa4,0x25,0x26,0x27,0x28,0x29,0x2a,0x2b,0x2c,0x2d,0x2e,0x2f,0x30,0x31,0x32,0x33,0x34,0x35,0x36,0x37,0x38,0x39,0x3a,0x3b,0x3c,0x3d,0x3e,0x3f,0x40,0x41,0x42,0x43,0x44,0x45,0x46,0x47,0x48,0x49,0x4a,0x4b,0x4c,0x4d,0x4e,0x4f,0x50,0x51,0x52,0x53,0x54,0x55,0x56,0x57,0x58,0x59,0x5a,0x5b,0x5c,0x5d,0x2015,0x5f,0x2016,0x61,0x62,0x63,0x64,0x65,0x66,0x67,0x68,0x69,0x6a,0x6b,0x6c,0x6d,0x6e,0x6f,0x70,0x71,0x72,0x73,0x74,0x75,0x76,0x77,0x78,0x79,0x7a,0x7b,0x7c,0x7d,0xaf,0x20,0xe1,0xe0,0xe9,0xe8,0xed,0xec,0xf3,0xf2,0xfa,0xf9,0xd1,0xc7,0x15e,0x3b2,0xa1,0x132,0xe2,0xe4,0xea,0xeb,0xee,0xef,0xf4,0xf6,0xfb,0xfc,0xf1,0xe7,0x15f,0x1e7,0x131,0x133,0xaa,0x3b1,0xa9,0x2030,0x1e6,0x11b,0x148,0x151,0x3c0,0x20ac,0xa3,0x24,0x2190,0x2191,0x2192,0x2193,0xba,0xb9,0xb2,0xb3,0xb1,0x130,0x144,0x171,0xb5,0xbf,0xf7,0xb0,0xbc,0xbd,0xbe,0xa7,0xc1,0xc0,0xc9,0xc8,0xcd,0xcc,0xd3,0xd2,0xda,0xd9,0x158,0x10c,0x160,0x17d,0xd0,0x13f,0xc2,0xc4,0xca,0xcb,0xce,0xcf,0xd4,0xd6,0xdb,0xdc,0x159,0x10d,0x161,0x17e,0x111,0x140,0xc3,0xc5,0xc6,0x152,0x177,0xdd,0xd5,0xd8,0xde,0x14a,0x154,0x106,0x15a,0x179,0x166,0xf0,0xe3,0xe5,0xe6,0x153,0x175,0xfd,0xf5,0xf8,0xfe,0x14b,0x155,0x107,0x15b,0x17a,0x167,0x20};
