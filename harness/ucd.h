// Generated by tools/ucd.py from the Unicode character database: the general category of the first characters.
static const struct { const char *name; unsigned mask; } cats[] = {{"Lu",1u},{"Ll",2u},{"Lt",4u},{"Lm",8u},{"Lo",16u},{"Mn",32u},{"Mc",64u},{"Me",128u},{"Nd",256u},{"Nl",512u},{"No",1024u},{"Pc",2048u},{"Pd",4096u},{"Ps",8192u},{"Pe",16384u},{"Pi",32768u},{"Pf",65536u},{"Po",131072u},{"Sm",262144u},{"Sc",524288u},{"Sk",1048576u},{"So",2097152u},{"Zs",4194304u},{"Zl",8388608u},{"Zp",16777216u},{"Cc",33554432u},{"Cf",67108864u},{"Cs",134217728u},{"Co",268435456u},{"Cn",536870912u},{"L",31u},{"M",224u},{"N",1792u},{"P",260096u},{"S",3932160u},{"Z",29360128u},{"C",1040187392u},{"LC",7u}};
static const unsigned char ucd[0x180] = {25,25,25,25,25,25,25,25,25,25,25,25,25,25,25,25,25,25,25,25,25,25,25,25,25,25,25,25,25,25,25,25,22,17,17,17,19,17,17,17,13,14,17,18,17,12,17,17,8,8,8,8,8,8,8,8,8,8,17,17,18,18,18,17,17,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,13,17,14,20,11,20,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,13,18,14,18,25,25,25,25,25,25,25,25,25,25,25,25,25,25,25,25,25,25,25,25,25,25,25,25,25,25,25,25,25,25,25,25,25,22,17,19,19,19,19,21,17,20,21,4,15,18,26,21,20,21,18,10,10,20,1,17,17,20,10,4,16,10,10,10,17,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,18,0,0,0,0,0,0,0,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,18,1,1,1,1,1,1,1,1,0,1,0,1,0,1,0,1,0,1,0,1,0,1,0,1,0,1,0,1,0,1,0,1,0,1,0,1,0,1,0,1,0,1,0,1,0,1,0,1,0,1,0,1,0,1,0,1,0,1,0,1,0,1,0,1,1,0,1,0,1,0,1,0,1,0,1,0,1,0,1,0,1,1,0,1,0,1,0,1,0,1,0,1,0,1,0,1,0,1,0,1,0,1,0,1,0,1,0,1,0,1,0,1,0,1,0,1,0,1,0,1,0,1,0,1,0,1,0,1,0,0,1,0,1,0,1,1};
