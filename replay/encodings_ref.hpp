#pragma once
// Frozen table of SAS encoding numbers (the SAS7BDAT reference used by the library at the base commit).
#include <string>
#include <string_view>
#include <cstdint>
constexpr std::string_view encoding_name(std::uint8_t b) {
  constexpr const char *t[256] = {
    /*0*/ "WINDOWS-1252",
    /*1*/ "WINDOWS-1252",
    /*2*/ "WINDOWS-1252",
    /*3*/ "WINDOWS-1252",
    /*4*/ "WINDOWS-1252",
    /*5*/ "WINDOWS-1252",
    /*6*/ "WINDOWS-1252",
    /*7*/ "WINDOWS-1252",
    /*8*/ "WINDOWS-1252",
    /*9*/ "WINDOWS-1252",
    /*10*/ "WINDOWS-1252",
    /*11*/ "WINDOWS-1252",
    /*12*/ "WINDOWS-1252",
    /*13*/ "WINDOWS-1252",
    /*14*/ "WINDOWS-1252",
    /*15*/ "WINDOWS-1252",
    /*16*/ "WINDOWS-1252",
    /*17*/ "WINDOWS-1252",
    /*18*/ "WINDOWS-1252",
    /*19*/ "WINDOWS-1252",
    /*20*/ "UTF-8",
    /*21*/ "WINDOWS-1252",
    /*22*/ "WINDOWS-1252",
    /*23*/ "WINDOWS-1252",
    /*24*/ "WINDOWS-1252",
    /*25*/ "WINDOWS-1252",
    /*26*/ "WINDOWS-1252",
    /*27*/ "WINDOWS-1252",
    /*28*/ "US-ASCII",
    /*29*/ "ISO-8859-1",
    /*30*/ "ISO-8859-2",
    /*31*/ "ISO-8859-3",
    /*32*/ "ISO-8859-4",
    /*33*/ "ISO-8859-5",
    /*34*/ "ISO-8859-6",
    /*35*/ "ISO-8859-7",
    /*36*/ "ISO-8859-8",
    /*37*/ "ISO-8859-9",
    /*38*/ "WINDOWS-1252",
    /*39*/ "ISO-8859-11",
    /*40*/ "ISO-8859-15",
    /*41*/ "CP437",
    /*42*/ "CP850",
    /*43*/ "CP852",
    /*44*/ "CP857",
    /*45*/ "CP858",
    /*46*/ "CP862",
    /*47*/ "CP864",
    /*48*/ "CP865",
    /*49*/ "CP866",
    /*50*/ "CP869",
    /*51*/ "CP874",
    /*52*/ "CP921",
    /*53*/ "CP922",
    /*54*/ "CP1129",
    /*55*/ "CP720",
    /*56*/ "CP737",
    /*57*/ "CP775",
    /*58*/ "CP860",
    /*59*/ "CP863",
    /*60*/ "WINDOWS-1250",
    /*61*/ "WINDOWS-1251",
    /*62*/ "WINDOWS-1252",
    /*63*/ "WINDOWS-1253",
    /*64*/ "WINDOWS-1254",
    /*65*/ "WINDOWS-1255",
    /*66*/ "WINDOWS-1256",
    /*67*/ "WINDOWS-1257",
    /*68*/ "WINDOWS-1258",
    /*69*/ "MACROMAN",
    /*70*/ "MACARABIC",
    /*71*/ "MACHEBREW",
    /*72*/ "MACGREEK",
    /*73*/ "MACTHAI",
    /*74*/ "WINDOWS-1252",
    /*75*/ "MACTURKISH",
    /*76*/ "MACUKRAINE",
    /*77*/ "WINDOWS-1252",
    /*78*/ "WINDOWS-1252",
    /*79*/ "WINDOWS-1252",
    /*80*/ "WINDOWS-1252",
    /*81*/ "WINDOWS-1252",
    /*82*/ "WINDOWS-1252",
    /*83*/ "WINDOWS-1252",
    /*84*/ "WINDOWS-1252",
    /*85*/ "WINDOWS-1252",
    /*86*/ "WINDOWS-1252",
    /*87*/ "WINDOWS-1252",
    /*88*/ "WINDOWS-1252",
    /*89*/ "WINDOWS-1252",
    /*90*/ "WINDOWS-1252",
    /*91*/ "WINDOWS-1252",
    /*92*/ "WINDOWS-1252",
    /*93*/ "WINDOWS-1252",
    /*94*/ "WINDOWS-1252",
    /*95*/ "WINDOWS-1252",
    /*96*/ "WINDOWS-1252",
    /*97*/ "WINDOWS-1252",
    /*98*/ "WINDOWS-1252",
    /*99*/ "WINDOWS-1252",
    /*100*/ "WINDOWS-1252",
    /*101*/ "WINDOWS-1252",
    /*102*/ "WINDOWS-1252",
    /*103*/ "WINDOWS-1252",
    /*104*/ "WINDOWS-1252",
    /*105*/ "WINDOWS-1252",
    /*106*/ "WINDOWS-1252",
    /*107*/ "WINDOWS-1252",
    /*108*/ "WINDOWS-1252",
    /*109*/ "WINDOWS-1252",
    /*110*/ "WINDOWS-1252",
    /*111*/ "WINDOWS-1252",
    /*112*/ "WINDOWS-1252",
    /*113*/ "WINDOWS-1252",
    /*114*/ "WINDOWS-1252",
    /*115*/ "WINDOWS-1252",
    /*116*/ "WINDOWS-1252",
    /*117*/ "WINDOWS-1252",
    /*118*/ "CP950",
    /*119*/ "EUC-TW",
    /*120*/ "WINDOWS-1252",
    /*121*/ "WINDOWS-1252",
    /*122*/ "WINDOWS-1252",
    /*123*/ "BIG5-HKSCS",
    /*124*/ "WINDOWS-1252",
    /*125*/ "GB18030",
    /*126*/ "CP936",
    /*127*/ "WINDOWS-1252",
    /*128*/ "CP1381",
    /*129*/ "WINDOWS-1252",
    /*130*/ "WINDOWS-1252",
    /*131*/ "WINDOWS-1252",
    /*132*/ "WINDOWS-1252",
    /*133*/ "WINDOWS-1252",
    /*134*/ "EUC-JP",
    /*135*/ "WINDOWS-1252",
    /*136*/ "CP949",
    /*137*/ "CP942",
    /*138*/ "CP932",
    /*139*/ "WINDOWS-1252",
    /*140*/ "EUC-KR",
    /*141*/ "CP949",
    /*142*/ "CP949",
    /*143*/ "WINDOWS-1252",
    /*144*/ "WINDOWS-1252",
    /*145*/ "WINDOWS-1252",
    /*146*/ "WINDOWS-1252",
    /*147*/ "WINDOWS-1252",
    /*148*/ "WINDOWS-1252",
    /*149*/ "WINDOWS-1252",
    /*150*/ "WINDOWS-1252",
    /*151*/ "WINDOWS-1252",
    /*152*/ "WINDOWS-1252",
    /*153*/ "WINDOWS-1252",
    /*154*/ "WINDOWS-1252",
    /*155*/ "WINDOWS-1252",
    /*156*/ "WINDOWS-1252",
    /*157*/ "WINDOWS-1252",
    /*158*/ "WINDOWS-1252",
    /*159*/ "WINDOWS-1252",
    /*160*/ "WINDOWS-1252",
    /*161*/ "WINDOWS-1252",
    /*162*/ "WINDOWS-1252",
    /*163*/ "MACICELAND",
    /*164*/ "WINDOWS-1252",
    /*165*/ "WINDOWS-1252",
    /*166*/ "WINDOWS-1252",
    /*167*/ "ISO-2022-JP",
    /*168*/ "ISO-2022-KR",
    /*169*/ "ISO-2022-CN",
    /*170*/ "WINDOWS-1252",
    /*171*/ "WINDOWS-1252",
    /*172*/ "ISO-2022-CN-EXT",
    /*173*/ "WINDOWS-1252",
    /*174*/ "WINDOWS-1252",
    /*175*/ "WINDOWS-1252",
    /*176*/ "WINDOWS-1252",
    /*177*/ "WINDOWS-1252",
    /*178*/ "WINDOWS-1252",
    /*179*/ "WINDOWS-1252",
    /*180*/ "WINDOWS-1252",
    /*181*/ "WINDOWS-1252",
    /*182*/ "WINDOWS-1252",
    /*183*/ "WINDOWS-1252",
    /*184*/ "WINDOWS-1252",
    /*185*/ "WINDOWS-1252",
    /*186*/ "WINDOWS-1252",
    /*187*/ "WINDOWS-1252",
    /*188*/ "WINDOWS-1252",
    /*189*/ "WINDOWS-1252",
    /*190*/ "WINDOWS-1252",
    /*191*/ "WINDOWS-1252",
    /*192*/ "WINDOWS-1252",
    /*193*/ "WINDOWS-1252",
    /*194*/ "WINDOWS-1252",
    /*195*/ "WINDOWS-1252",
    /*196*/ "WINDOWS-1252",
    /*197*/ "WINDOWS-1252",
    /*198*/ "WINDOWS-1252",
    /*199*/ "WINDOWS-1252",
    /*200*/ "WINDOWS-1252",
    /*201*/ "WINDOWS-1252",
    /*202*/ "WINDOWS-1252",
    /*203*/ "WINDOWS-1252",
    /*204*/ "WINDOWS-1252",
    /*205*/ "GB18030",
    /*206*/ "WINDOWS-1252",
    /*207*/ "WINDOWS-1252",
    /*208*/ "WINDOWS-1252",
    /*209*/ "WINDOWS-1252",
    /*210*/ "WINDOWS-1252",
    /*211*/ "WINDOWS-1252",
    /*212*/ "WINDOWS-1252",
    /*213*/ "WINDOWS-1252",
    /*214*/ "WINDOWS-1252",
    /*215*/ "WINDOWS-1252",
    /*216*/ "WINDOWS-1252",
    /*217*/ "WINDOWS-1252",
    /*218*/ "WINDOWS-1252",
    /*219*/ "WINDOWS-1252",
    /*220*/ "WINDOWS-1252",
    /*221*/ "WINDOWS-1252",
    /*222*/ "WINDOWS-1252",
    /*223*/ "WINDOWS-1252",
    /*224*/ "WINDOWS-1252",
    /*225*/ "WINDOWS-1252",
    /*226*/ "WINDOWS-1252",
    /*227*/ "ISO-8859-14",
    /*228*/ "WINDOWS-1252",
    /*229*/ "WINDOWS-1252",
    /*230*/ "WINDOWS-1252",
    /*231*/ "WINDOWS-1252",
    /*232*/ "WINDOWS-1252",
    /*233*/ "WINDOWS-1252",
    /*234*/ "WINDOWS-1252",
    /*235*/ "WINDOWS-1252",
    /*236*/ "WINDOWS-1252",
    /*237*/ "WINDOWS-1252",
    /*238*/ "WINDOWS-1252",
    /*239*/ "WINDOWS-1252",
    /*240*/ "WINDOWS-1252",
    /*241*/ "WINDOWS-1252",
    /*242*/ "ISO-8859-13",
    /*243*/ "WINDOWS-1252",
    /*244*/ "WINDOWS-1252",
    /*245*/ "MACCROATIAN",
    /*246*/ "MACCYRILLIC",
    /*247*/ "MACROMANIA",
    /*248*/ "SHIFT_JISX0213",
    /*249*/ "WINDOWS-1252",
    /*250*/ "WINDOWS-1252",
    /*251*/ "WINDOWS-1252",
    /*252*/ "WINDOWS-1252",
    /*253*/ "WINDOWS-1252",
    /*254*/ "WINDOWS-1252",
    /*255*/ "WINDOWS-1252",
  };
  return t[b];
}
inline std::string encoding_ref(std::uint8_t b) { return std::string(encoding_name(b)); }
