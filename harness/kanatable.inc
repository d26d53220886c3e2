{"a", 0x3042, 0x0, "", "", {"", "", ""}, 0, -1, -1, -1},
{"na", 0x306a, 0x0, "", "", {"", "", ""}, 0, -1, -1, -1},
{"ma", 0x307e, 0x0, "", "", {"", "", ""}, 0, -1, -1, -1},
{"ya", 0x3084, 0x0, "", "", {"", "", ""}, 0, -1, -1, -1},
{"ra", 0x3089, 0x0, "", "", {"", "", ""}, 0, -1, -1, -1},
{"wa", 0x308f, 0x0, "", "", {"", "", ""}, 0, -1, -1, -1},
{"qwa", 0x304f, 0x308e, "", "", {"", "", ""}, 0, -1, -1, -1},
{"swa", 0x3059, 0x3041, "", "", {"", "", ""}, 0, -1, -1, -1},
{"tsa", 0x3064, 0x3041, "", "", {"", "", ""}, 0, -1, -1, -1},
{"nya", 0x306b, 0x3083, "", "", {"", "", ""}, 0, -1, -1, -1},
{"fa", 0x3075, 0x3041, "", "", {"fwa", "hwa", ""}, 0, -1, -1, -1},
{"fya", 0x3075, 0x3083, "", "", {"", "", ""}, 0, -1, -1, -1},
{"mya", 0x307f, 0x3083, "", "", {"", "", ""}, 0, -1, -1, -1},
{"rya", 0x308a, 0x3083, "", "", {"", "", ""}, 0, -1, -1, -1},
{"i", 0x3044, 0x0, "", "", {"", "", ""}, 0, -1, -1, -1},
{"ni", 0x306b, 0x0, "", "", {"", "", ""}, 0, -1, -1, -1},
{"mi", 0x307f, 0x0, "", "", {"", "", ""}, 0, -1, -1, -1},
{"ri", 0x308a, 0x0, "", "", {"", "", ""}, 0, -1, -1, -1},
{"wyi", 0x3090, 0x0, "i", "i", {"", "", ""}, 0, -1, -1, -1},
{"swi", 0x3059, 0x3043, "", "", {"", "", ""}, 0, -1, -1, -1},
{"tsi", 0x3064, 0x3043, "", "", {"", "", ""}, 0, -1, -1, -1},
{"nyi", 0x306b, 0x3043, "", "", {"", "", ""}, 0, -1, -1, -1},
{"fi", 0x3075, 0x3043, "", "", {"fyi", "fwi", "hwi"}, 0, -1, -1, -1},
{"myi", 0x307f, 0x3043, "", "", {"", "", ""}, 0, -1, -1, -1},
{"ryi", 0x308a, 0x3043, "", "", {"", "", ""}, 0, -1, -1, -1},
{"nu", 0x306c, 0x0, "", "", {"", "", ""}, 0, -1, -1, -1},
{"mu", 0x3080, 0x0, "", "", {"", "", ""}, 0, -1, -1, -1},
{"yu", 0x3086, 0x0, "", "", {"", "", ""}, 0, -1, -1, -1},
{"ru", 0x308b, 0x0, "", "", {"", "", ""}, 0, -1, -1, -1},
{"swu", 0x3059, 0x3045, "", "", {"", "", ""}, 0, -1, -1, -1},
{"nyu", 0x306b, 0x3085, "", "", {"", "", ""}, 0, -1, -1, -1},
{"fwu", 0x3075, 0x3045, "", "", {"", "", ""}, 0, -1, -1, -1},
{"fyu", 0x3075, 0x3085, "", "", {"", "", ""}, 0, -1, -1, -1},
{"myu", 0x307f, 0x3085, "", "", {"", "", ""}, 0, -1, -1, -1},
{"ryu", 0x308a, 0x3085, "", "", {"", "", ""}, 0, -1, -1, -1},
{"e", 0x3048, 0x0, "", "", {"", "", ""}, 0, -1, -1, -1},
{"ne", 0x306d, 0x0, "", "", {"", "", ""}, 0, -1, -1, -1},
{"me", 0x3081, 0x0, "", "", {"", "", ""}, 0, -1, -1, -1},
{"re", 0x308c, 0x0, "", "", {"", "", ""}, 0, -1, -1, -1},
{"wye", 0x3091, 0x0, "e", "e", {"", "", ""}, 0, -1, -1, -1},
{"ye", 0x3044, 0x3047, "", "", {"", "", ""}, 0, -1, -1, -1},
{"swe", 0x3059, 0x3047, "", "", {"", "", ""}, 0, -1, -1, -1},
{"tse", 0x3064, 0x3047, "", "", {"", "", ""}, 0, -1, -1, -1},
{"nye", 0x306b, 0x3047, "", "", {"", "", ""}, 0, -1, -1, -1},
{"fe", 0x3075, 0x3047, "", "", {"fye", "fwe", "hwe"}, 0, -1, -1, -1},
{"mye", 0x307f, 0x3047, "", "", {"", "", ""}, 0, -1, -1, -1},
{"rye", 0x308a, 0x3047, "", "", {"", "", ""}, 0, -1, -1, -1},
{"o", 0x304a, 0x0, "", "", {"", "", ""}, 0, -1, -1, -1},
{"no", 0x306e, 0x0, "", "", {"", "", ""}, 0, -1, -1, -1},
{"mo", 0x3082, 0x0, "", "", {"", "", ""}, 0, -1, -1, -1},
{"yo", 0x3088, 0x0, "", "", {"", "", ""}, 0, -1, -1, -1},
{"ro", 0x308d, 0x0, "", "", {"", "", ""}, 0, -1, -1, -1},
{"wo", 0x3092, 0x0, "o", "o", {"", "", ""}, 0, -1, -1, -1},
{"swo", 0x3059, 0x3049, "", "", {"", "", ""}, 0, -1, -1, -1},
{"tso", 0x3064, 0x3049, "", "", {"", "", ""}, 0, -1, -1, -1},
{"nyo", 0x306b, 0x3087, "", "", {"", "", ""}, 0, -1, -1, -1},
{"fo", 0x3075, 0x3049, "", "", {"fwo", "hwo", ""}, 0, -1, -1, -1},
{"fyo", 0x3075, 0x3087, "", "", {"", "", ""}, 0, -1, -1, -1},
{"myo", 0x307f, 0x3087, "", "", {"", "", ""}, 0, -1, -1, -1},
{"ryo", 0x308a, 0x3087, "", "", {"", "", ""}, 0, -1, -1, -1},
{"va", 0x3094, 0x3041, "", "", {"", "", ""}, 0, -1, -1, -1},
{"vo", 0x3094, 0x3049, "", "", {"", "", ""}, 0, -1, -1, -1},
{"vya", 0x3094, 0x3083, "", "", {"", "", ""}, 0, -1, -1, -1},
{"vyu", 0x3094, 0x3085, "", "", {"", "", ""}, 0, -1, -1, -1},
{"vyo", 0x3094, 0x3087, "", "", {"", "", ""}, 0, -1, -1, -1},
{"la", 0x3041, 0x0, "", "", {"xa", "", ""}, 0, -1, -1, -1},
{"li", 0x3043, 0x0, "", "", {"xi", "", ""}, 0, -1, -1, -1},
{"lu", 0x3045, 0x0, "", "", {"xu", "", ""}, 0, -1, -1, -1},
{"le", 0x3047, 0x0, "", "", {"xe", "lye", "xye"}, 0, -1, -1, -1},
{"lo", 0x3049, 0x0, "", "", {"xo", "", ""}, 0, -1, -1, -1},
{"lka", 0x3095, 0x0, "", "", {"xka", "", ""}, 0, -1, -1, -1},
{"lke", 0x3096, 0x0, "", "", {"xke", "", ""}, 0, -1, -1, -1},
{"lya", 0x3083, 0x0, "", "", {"xya", "", ""}, 0, -1, -1, -1},
{"lyu", 0x3085, 0x0, "", "", {"xyu", "", ""}, 0, -1, -1, -1},
{"lyo", 0x3087, 0x0, "", "", {"xyo", "", ""}, 0, -1, -1, -1},
{"lwa", 0x308e, 0x0, "", "", {"xwa", "", ""}, 0, -1, -1, -1},
{"ltu", 0x3063, 0x0, "", "", {"xtu", "", ""}, 0, -1, -1, -1},
{"n", 0x3093, 0x0, "", "", {"", "", ""}, 0, -1, -1, -1},
{"ka", 0x304b, 0x0, "", "", {"", "", ""}, 0, 79, -1, -1},
{"ga", 0x304c, 0x0, "", "", {"", "", ""}, 0, -1, -1, 78},
{"sa", 0x3055, 0x0, "", "", {"", "", ""}, 0, 81, -1, -1},
{"za", 0x3056, 0x0, "", "", {"", "", ""}, 0, -1, -1, 80},
{"ta", 0x305f, 0x0, "", "", {"", "", ""}, 0, 83, -1, -1},
{"da", 0x3060, 0x0, "", "", {"", "", ""}, 0, -1, -1, 82},
{"kya", 0x304d, 0x3083, "", "", {"", "", ""}, 0, 85, -1, -1},
{"gya", 0x304e, 0x3083, "", "", {"", "", ""}, 0, -1, -1, 84},
{"qa", 0x304f, 0x3041, "", "", {"kwa", "", ""}, 0, 87, -1, -1},
{"gwa", 0x3050, 0x3041, "", "", {"", "", ""}, 0, -1, -1, 86},
{"sha", 0x3057, 0x3083, "", "", {"sya", "", ""}, 1, 89, -1, -1},
{"ja", 0x3058, 0x3083, "", "", {"zya", "jya", ""}, 1, -1, -1, 88},
{"cha", 0x3061, 0x3083, "", "", {"tya", "", ""}, 1, 91, -1, -1},
{"dya", 0x3062, 0x3083, "ja", "zya", {"", "", ""}, 0, -1, -1, 90},
{"tha", 0x3066, 0x3083, "", "", {"", "", ""}, 0, 93, -1, -1},
{"dha", 0x3067, 0x3083, "", "", {"", "", ""}, 0, -1, -1, 92},
{"twa", 0x3068, 0x3041, "", "", {"", "", ""}, 0, 95, -1, -1},
{"dwa", 0x3069, 0x3041, "", "", {"", "", ""}, 0, -1, -1, 94},
{"ki", 0x304d, 0x0, "", "", {"", "", ""}, 0, 97, -1, -1},
{"gi", 0x304e, 0x0, "", "", {"", "", ""}, 0, -1, -1, 96},
{"shi", 0x3057, 0x0, "", "", {"si", "", ""}, 1, 99, -1, -1},
{"ji", 0x3058, 0x0, "", "", {"zi", "", ""}, 1, -1, -1, 98},
{"chi", 0x3061, 0x0, "", "", {"ti", "", ""}, 1, 101, -1, -1},
{"di", 0x3062, 0x0, "ji", "zi", {"", "", ""}, 0, -1, -1, 100},
{"wi", 0x3046, 0x3043, "", "", {"", "", ""}, 0, 103, -1, -1},
{"vi", 0x3094, 0x3043, "", "", {"", "", ""}, 0, -1, -1, 102},
{"qi", 0x304f, 0x3043, "", "", {"kwi", "qwi", ""}, 0, 105, -1, -1},
{"gwi", 0x3050, 0x3043, "", "", {"", "", ""}, 0, -1, -1, 104},
{"kyi", 0x304d, 0x3043, "", "", {"", "", ""}, 0, 107, -1, -1},
{"gyi", 0x304e, 0x3043, "", "", {"", "", ""}, 0, -1, -1, 106},
{"syi", 0x3057, 0x3043, "", "", {"", "", ""}, 0, 109, -1, -1},
{"jyi", 0x3058, 0x3043, "", "", {"zyi", "", ""}, 0, -1, -1, 108},
{"tyi", 0x3061, 0x3043, "", "", {"", "", ""}, 0, 111, -1, -1},
{"dyi", 0x3062, 0x3043, "", "", {"", "", ""}, 0, -1, -1, 110},
{"twi", 0x3068, 0x3043, "", "", {"", "", ""}, 0, 113, -1, -1},
{"dwi", 0x3069, 0x3043, "", "", {"", "", ""}, 0, -1, -1, 112},
{"thi", 0x3066, 0x3043, "", "", {"", "", ""}, 0, 115, -1, -1},
{"dhi", 0x3067, 0x3043, "", "", {"", "", ""}, 0, -1, -1, 114},
{"u", 0x3046, 0x0, "", "", {"wu", "", ""}, 0, 117, -1, -1},
{"vu", 0x3094, 0x0, "", "", {"", "", ""}, 0, -1, -1, 116},
{"ku", 0x304f, 0x0, "", "", {"", "", ""}, 0, 119, -1, -1},
{"gu", 0x3050, 0x0, "", "", {"", "", ""}, 0, -1, -1, 118},
{"su", 0x3059, 0x0, "", "", {"", "", ""}, 0, 121, -1, -1},
{"zu", 0x305a, 0x0, "", "", {"", "", ""}, 0, -1, -1, 120},
{"tsu", 0x3064, 0x0, "", "", {"tu", "", ""}, 1, 123, -1, -1},
{"du", 0x3065, 0x0, "zu", "zu", {"", "", ""}, 0, -1, -1, 122},
{"kyu", 0x304d, 0x3085, "", "", {"", "", ""}, 0, 125, -1, -1},
{"gyu", 0x304e, 0x3085, "", "", {"", "", ""}, 0, -1, -1, 124},
{"qu", 0x304f, 0x3045, "", "", {"kwu", "qwu", ""}, 0, 127, -1, -1},
{"gwu", 0x3050, 0x3045, "", "", {"", "", ""}, 0, -1, -1, 126},
{"shu", 0x3057, 0x3085, "", "", {"syu", "", ""}, 1, 129, -1, -1},
{"ju", 0x3058, 0x3085, "", "", {"zyu", "jyu", ""}, 1, -1, -1, 128},
{"chu", 0x3061, 0x3085, "", "", {"tyu", "", ""}, 1, 131, -1, -1},
{"dyu", 0x3062, 0x3085, "ju", "zyu", {"", "", ""}, 0, -1, -1, 130},
{"thu", 0x3066, 0x3085, "", "", {"", "", ""}, 0, 133, -1, -1},
{"dhu", 0x3067, 0x3085, "", "", {"", "", ""}, 0, -1, -1, 132},
{"twu", 0x3068, 0x3045, "", "", {"", "", ""}, 0, 135, -1, -1},
{"dwu", 0x3069, 0x3045, "", "", {"", "", ""}, 0, -1, -1, 134},
{"ke", 0x3051, 0x0, "", "", {"", "", ""}, 0, 137, -1, -1},
{"ge", 0x3052, 0x0, "", "", {"", "", ""}, 0, -1, -1, 136},
{"kye", 0x304d, 0x3047, "", "", {"", "", ""}, 0, 139, -1, -1},
{"gye", 0x304e, 0x3047, "", "", {"", "", ""}, 0, -1, -1, 138},
{"se", 0x305b, 0x0, "", "", {"", "", ""}, 0, 141, -1, -1},
{"ze", 0x305c, 0x0, "", "", {"", "", ""}, 0, -1, -1, 140},
{"te", 0x3066, 0x0, "", "", {"", "", ""}, 0, 143, -1, -1},
{"de", 0x3067, 0x0, "", "", {"", "", ""}, 0, -1, -1, 142},
{"we", 0x3046, 0x3047, "", "", {"", "", ""}, 0, 145, -1, -1},
{"ve", 0x3094, 0x3047, "", "", {"", "", ""}, 0, -1, -1, 144},
{"qe", 0x304f, 0x3047, "", "", {"kwe", "qwe", ""}, 0, 147, -1, -1},
{"gwe", 0x3050, 0x3047, "", "", {"", "", ""}, 0, -1, -1, 146},
{"she", 0x3057, 0x3047, "", "", {"", "", ""}, 0, 149, -1, -1},
{"je", 0x3058, 0x3047, "", "", {"zye", "jye", ""}, 0, -1, -1, 148},
{"che", 0x3061, 0x3047, "", "", {"tye", "", ""}, 0, 151, -1, -1},
{"dye", 0x3062, 0x3047, "", "", {"", "", ""}, 0, -1, -1, 150},
{"the", 0x3066, 0x3047, "", "", {"", "", ""}, 0, 153, -1, -1},
{"dhe", 0x3067, 0x3047, "", "", {"", "", ""}, 0, -1, -1, 152},
{"twe", 0x3068, 0x3047, "", "", {"", "", ""}, 0, 155, -1, -1},
{"dwe", 0x3069, 0x3047, "", "", {"", "", ""}, 0, -1, -1, 154},
{"ko", 0x3053, 0x0, "", "", {"", "", ""}, 0, 157, -1, -1},
{"go", 0x3054, 0x0, "", "", {"", "", ""}, 0, -1, -1, 156},
{"so", 0x305d, 0x0, "", "", {"", "", ""}, 0, 159, -1, -1},
{"zo", 0x305e, 0x0, "", "", {"", "", ""}, 0, -1, -1, 158},
{"to", 0x3068, 0x0, "", "", {"", "", ""}, 0, 161, -1, -1},
{"do", 0x3069, 0x0, "", "", {"", "", ""}, 0, -1, -1, 160},
{"kyo", 0x304d, 0x3087, "", "", {"", "", ""}, 0, 163, -1, -1},
{"gyo", 0x304e, 0x3087, "", "", {"", "", ""}, 0, -1, -1, 162},
{"qo", 0x304f, 0x3049, "", "", {"kwo", "qwo", ""}, 0, 165, -1, -1},
{"gwo", 0x3050, 0x3049, "", "", {"", "", ""}, 0, -1, -1, 164},
{"sho", 0x3057, 0x3087, "", "", {"syo", "", ""}, 1, 167, -1, -1},
{"jo", 0x3058, 0x3087, "", "", {"zyo", "jyo", ""}, 1, -1, -1, 166},
{"cho", 0x3061, 0x3087, "", "", {"tyo", "", ""}, 1, 169, -1, -1},
{"dyo", 0x3062, 0x3087, "jo", "zyo", {"", "", ""}, 0, -1, -1, 168},
{"tho", 0x3066, 0x3087, "", "", {"", "", ""}, 0, 171, -1, -1},
{"dho", 0x3067, 0x3087, "", "", {"", "", ""}, 0, -1, -1, 170},
{"two", 0x3068, 0x3049, "", "", {"", "", ""}, 0, 173, -1, -1},
{"dwo", 0x3069, 0x3049, "", "", {"", "", ""}, 0, -1, -1, 172},
{"ha", 0x306f, 0x0, "", "", {"", "", ""}, 0, 176, 175, -1},
{"pa", 0x3071, 0x0, "", "", {"", "", ""}, 0, -1, -1, 174},
{"ba", 0x3070, 0x0, "", "", {"", "", ""}, 0, -1, -1, 174},
{"hi", 0x3072, 0x0, "", "", {"", "", ""}, 0, 179, 178, -1},
{"pi", 0x3074, 0x0, "", "", {"", "", ""}, 0, -1, -1, 177},
{"bi", 0x3073, 0x0, "", "", {"", "", ""}, 0, -1, -1, 177},
{"fu", 0x3075, 0x0, "", "", {"hu", "", ""}, 1, 182, 181, -1},
{"pu", 0x3077, 0x0, "", "", {"", "", ""}, 0, -1, -1, 180},
{"bu", 0x3076, 0x0, "", "", {"", "", ""}, 0, -1, -1, 180},
{"he", 0x3078, 0x0, "", "", {"", "", ""}, 0, 185, 184, -1},
{"pe", 0x307a, 0x0, "", "", {"", "", ""}, 0, -1, -1, 183},
{"be", 0x3079, 0x0, "", "", {"", "", ""}, 0, -1, -1, 183},
{"ho", 0x307b, 0x0, "", "", {"", "", ""}, 0, 188, 187, -1},
{"po", 0x307d, 0x0, "", "", {"", "", ""}, 0, -1, -1, 186},
{"bo", 0x307c, 0x0, "", "", {"", "", ""}, 0, -1, -1, 186},
{"hya", 0x3072, 0x3083, "", "", {"", "", ""}, 0, 191, 190, -1},
{"pya", 0x3074, 0x3083, "", "", {"", "", ""}, 0, -1, -1, 189},
{"bya", 0x3073, 0x3083, "", "", {"", "", ""}, 0, -1, -1, 189},
{"hyi", 0x3072, 0x3043, "", "", {"", "", ""}, 0, 194, 193, -1},
{"pyi", 0x3074, 0x3043, "", "", {"", "", ""}, 0, -1, -1, 192},
{"byi", 0x3073, 0x3043, "", "", {"", "", ""}, 0, -1, -1, 192},
{"hyu", 0x3072, 0x3085, "", "", {"", "", ""}, 0, 197, 196, -1},
{"pyu", 0x3074, 0x3085, "", "", {"", "", ""}, 0, -1, -1, 195},
{"byu", 0x3073, 0x3085, "", "", {"", "", ""}, 0, -1, -1, 195},
{"hye", 0x3072, 0x3047, "", "", {"", "", ""}, 0, 200, 199, -1},
{"pye", 0x3074, 0x3047, "", "", {"", "", ""}, 0, -1, -1, 198},
{"bye", 0x3073, 0x3047, "", "", {"", "", ""}, 0, -1, -1, 198},
{"hyo", 0x3072, 0x3087, "", "", {"", "", ""}, 0, 203, 202, -1},
{"pyo", 0x3074, 0x3087, "", "", {"", "", ""}, 0, -1, -1, 201},
{"byo", 0x3073, 0x3087, "", "", {"", "", ""}, 0, -1, -1, 201},
