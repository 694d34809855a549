// three-letter call signs of NRSC-4 annex D
{0x9950, "KEX"},
{0x9951, "KFH"},
{0x9952, "KFI"},
{0x9953, "KGA"},
{0x9954, "KGO"},
{0x9955, "KGU"},
{0x9956, "KGW"},
{0x9957, "KGY"},
{0x9958, "KID"},
{0x9959, "KIT"},
{0x995A, "KJR"},
{0x995B, "KLO"},
{0x995C, "KLZ"},
{0x995D, "KMA"},
{0x995E, "KMJ"},
{0x995F, "KNX"},
{0x9960, "KOA"},
{0x9964, "KQV"},
{0x9965, "KSL"},
{0x9966, "KUJ"},
{0x9967, "KVI"},
{0x9968, "KWG"},
{0x996B, "KYW"},
{0x996D, "WBZ"},
{0x996E, "WDZ"},
{0x996F, "WEW"},
{0x9971, "WGL"},
{0x9972, "WGN"},
{0x9973, "WGR"},
{0x9975, "WHA"},
{0x9976, "WHB"},
{0x9977, "WHK"},
{0x9978, "WHO"},
{0x997A, "WIP"},
{0x997B, "WJR"},
{0x997C, "WKY"},
{0x997D, "WLS"},
{0x997E, "WLW"},
{0x9981, "WOC"},
{0x9983, "WOL"},
{0x9984, "WOR"},
{0x9988, "WWJ"},
{0x9989, "WWL"},
{0x9990, "KDB"},
{0x9991, "KGB"},
{0x9992, "KOY"},
{0x9993, "KPQ"},
{0x9994, "KSD"},
{0x9995, "KUT"},
{0x9996, "KXL"},
{0x9997, "KXO"},
{0x9999, "WBT"},
{0x999A, "WGH"},
{0x999B, "WGY"},
{0x999C, "WHP"},
{0x999D, "WIL"},
{0x999E, "WMC"},
{0x999F, "WMT"},
{0x99A0, "WOI"},
{0x99A1, "WOW"},
{0x99A2, "WRR"},
{0x99A3, "WSB"},
{0x99A4, "WSM"},
{0x99A5, "KBW"},
{0x99A6, "KCY"},
{0x99A7, "KDF"},
{0x99AA, "KHQ"},
{0x99AB, "KOB"},
{0x99B3, "WIS"},
{0x99B4, "WJW"},
{0x99B5, "WJZ"},
{0x99B9, "WRC"}
