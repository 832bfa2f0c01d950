#define L10 L9, 10
#define L11 L10, 11
#define L12 L11, 12
#define L13 L12, 13
#define L14 L13, 14
#define L15 L14, 15
#define L16 L15, 16
#define L17 L16, 17
#define L18 L17, 18
#define L19 L18, 19
#define L20 L19, 20
#define L21 L20, 21
#define L22 L21, 22
#define L23 L22, 23
#define L24 L23, 24
#define L25 L24, 25
#define L26 L25, 26
#define L27 L26, 27
#define L28 L27, 28
#define L29 L28, 29
#define L30 L29, 30
#define L31 L30, 31
#define L32 L31, 32
#define L33 L32, 33
#define L34 L33, 34
#define L35 L34, 35
#define L36 L35, 36
#define L37 L36, 37
#define L38 L37, 38
#define L39 L38, 39
#define L40 L39, 40
#define L41 L40, 41
#define L42 L41, 42
#define L43 L42, 43
#define L44 L43, 44
#define L45 L44, 45
#define L46 L45, 46
#define L47 L46, 47
#define L48 L47, 48
#define L49 L48, 49
#define L50 L49, 50
#define L51 L50, 51
#define L52 L51, 52
#define L53 L52, 53
#define L54 L53, 54
#define L55 L54, 55
#define L56 L55, 56
#define L57 L56, 57
#define L58 L57, 58
#define L59 L58, 59
#define L60 L59, 60
#define L61 L60, 61
#define L62 L61, 62
#define L63 L62, 63
#define L64 L63, 64
#define L65 L64, 65
#define L66 L65, 66
#define L67 L66, 67
#define L68 L67, 68
#define L69 L68, 69
#define L70 L69, 70
#define L71 L70, 71
#define L72 L71, 72
#define L73 L72, 73
#define L74 L73, 74
#define L75 L74, 75
#define L76 L75, 76
#define L77 L76, 77
#define L78 L77, 78
#define L79 L78, 79
#define L80 L79, 80
#define L81 L80, 81
#define L82 L81, 82
#define L83 L82, 83
#define L84 L83, 84
#define L85 L84, 85
#define L86 L85, 86
#define L87 L86, 87
#define L88 L87, 88
#define L89 L88, 89
#define C32_CASES CASE(1) CASE(2) CASE(3) CASE(4) CASE(5) CASE(6) CASE(7) CASE(8) CASE(9) CASE(10) CASE(11) CASE(12) CASE(13) CASE(14) CASE(15) CASE(16) CASE(17) CASE(18) CASE(19) CASE(20) CASE(21) CASE(22) CASE(23) CASE(24) CASE(25) CASE(26) CASE(27) CASE(28) CASE(29) CASE(30) CASE(31) CASE(32) CASE(33) CASE(34) CASE(35) CASE(36) CASE(37) CASE(38) CASE(39) CASE(40) CASE(41) CASE(42) CASE(43) CASE(44) CASE(45) CASE(46) CASE(47) CASE(48) CASE(49) CASE(50) CASE(51) CASE(52) CASE(53) CASE(54) CASE(55) CASE(56) CASE(57) CASE(58) CASE(59) CASE(60) CASE(61) CASE(62) CASE(63) CASE(64) CASE(65) CASE(66) CASE(67) CASE(68) CASE(69) CASE(70) CASE(71) CASE(72) CASE(73) CASE(74) CASE(75) CASE(76) CASE(77) CASE(78) CASE(79) CASE(80) CASE(81) CASE(82) CASE(83) CASE(84) CASE(85) CASE(86) CASE(87) CASE(88) CASE(89)
