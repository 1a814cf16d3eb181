// -*- mode: bluespec -*-
// Generated by tools/dev/gen_profile.py from data/profile.txt.
// The error profile of every approximated function: byte i (the lowest first) is the error allowed in part i of
// its domain, in eighths of a unit in the last place; 255 stands for no bound beyond the contract's.
module profile {
  pure val ACOS_32: int = 0x60606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606070809090a080807070707070707060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606080808080808080808080808080707070707070707070707070706060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606070708080908070707070707070606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060707070707070707070707070707070707070707070707
  pure val ACOS_64: int = 0x606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060809090a0a0a0808080808070707070707070707070707070707070707070707070707070707070707070707070707070707070707070606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060607070808090909080808080707070707070707070707070707070707070707070707070707070707070707070707070707070707070706060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606
  pure val ACOSH_32: int = 0x60606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060a080809080606060b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b060707070607070707070707070707070707070707070707070707070708090808080908080809080a0b0b0b0c0d0e14060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606
  pure val ACOSH_64: int = 0x60606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060b0b07070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707080808080808080808080808080808080808080808080809090909090909090909090a0c0c0c0d0e101717170606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606
  pure val ASIN_32: int = 0x606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606070808080807070707070707070706070606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060708080808070707070707070707060706060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606
  pure val ASIN_64: int = 0x606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060909090a0a0a080807070707070707070707070707070707070707070606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060909090a0a0a08080707070707070707070707070707070707070707060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606
  pure val ASINH_32: int = 0xa080809080606060b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b06070707060707070707070707070707070707070707070707070707070809080808090808080908090a0b0b0b0c0d100f0e0c1211100e12110d0d10100c0c0f100b0b0f0f0b0b0e0f0b0b0b0f0b0b0b0f0b0b0b0e0b0b0b0e0a0b080e08090a0606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060a080809080606060b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b06070707060707070707070707070707070707070707070707070707070809080808090808080908090a0b0b0b0c0d100f0e0c1211100e12110d0d10100c0c0f100b0b0f0f0b0b0e0f0b0b0b0f0b0b0b0f0b0b0b0e0b0b0b0e0a0b080e08090a060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606
  pure val ASINH_64: int = 0xb0b07070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707080808080808080808080808080808080808080808080809090909090909090909090a0b0c0c0c0d0d111111101414141213131313111111111011111110101010101010101010101010101010101010101010101010101010101010100f1010100f1010100f1010100f1010100b0f0f0f0b0f0f0f0b0f0f0f0b0f0f0f0b0f0f0f0b0f0f0f0b0f0f0f0b0f0f0f0b0f0f0f0a0a0a0606060606060606060606060606060606060606060606060b0b07070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707080808080808080808080808080808080808080808080809090909090909090909090a0b0c0c0c0d0d111111101414141213131313111111111011111110101010101010101010101010101010101010101010101010101010101010100f1010100f1010100f1010100f1010100b0f0f0f0b0f0f0f0b0f0f0f0b0f0f0f0b0f0f0f0b0f0f0f0b0f0f0f0b0f0f0f0b0f0f0f0a0a0a060606060606060606060606060606060606060606060606
  pure val ATAN_32: int = 0x706060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060707070707070707080809080707080808090908080807070706060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060607060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060607070707070707070808090807070808080909080808070707060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606
  pure val ATAN_64: int = 0x60606060606060606060606060606060606060606060606060606060606060606060606060606060707070707070707070707070707070707070707070707070707070707070707070707070707070707070707080808080909090909090809090a0a0a0a0909080807070707070707070707070707070707070707070707070707070707070707070606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060707070707070707070707070707070707070707070707070707070707070707070707070707070707070707080808080909090909090809090a0a0a0a0909080807070707070707070707070707070707070707070707070707070707070707070606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606
  pure val ATANH_32: int = 0x606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060609090b0a11110f0c11100e0c110c0c0b100b0b0b0f0b0b0b0f0b0b0b0f0b0b0b0f0b0b0b0e0b0b0b0e0b0b0b0e0a08090e090a0a0b0a0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b060b0606060b0b06060b0606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060609090b0a11110f0c11100e0c110c0c0b100b0b0b0f0b0b0b0f0b0b0b0f0b0b0b0f0b0b0b0e0b0b0b0e0b0b0b0e0a08090e090a0a0b0a0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b060b0606060b0b06060b060606060606060606060606060606060606060606060606060606060606060606060606
  pure val ATANH_64: int = 0x60606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606090a0c0c13131312131313111212120d1111110c1111110c1111110c1010100c1010100b1010100b1010100b1010100b1010100b1010100b1010100b1010100b1010100b1010100b1010100b0f0f0f0b0f0f0f0b0f0f0f0b0f0f0f0b0f0f0f0b0f0f0f0b0f0f0f0b0f0f0f0b0d0d0d0b0c0c0c0b0c0c0c0b0c0c0c0b0c0c0c0b0b0b060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606090a0c0c13131312131313111212120d1111110c1111110c1111110c1010100c1010100b1010100b1010100b1010100b1010100b1010100b1010100b1010100b1010100b1010100b1010100b0f0f0f0b0f0f0f0b0f0f0f0b0f0f0f0b0f0f0f0b0f0f0f0b0f0f0f0b0f0f0f0b0d0d0d0b0c0c0c0b0c0c0c0b0c0c0c0b0c0c0c0b0b0b
  pure val COS_32: int = 0x606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606
  pure val COS_64: int = 0x909090909090909090909090909090909090909090909090909090909090909090909090909090909090909090909090909090909090909090909090909090909090909090909090909090909090909090909090909090909090909090907080809090909080707070707070707070707070707070707070707070706060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060609090909090909090909090909090909090909090909090909090909090909090909090909090909090909090909090909090909090909090909090909090909090909090909090909090909090909090909090909090909090909090909070808090909090807070707070707070707070707070707070707070707060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606
  pure val COSH_32: int = 0x6060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060c090a0a090a0a0a090a0a09090c0d0e0e0e0e0e0d0d0e0e0c0d0c0b0a08080807070706060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060c090a0a090a0a0a090a0a09090c0d0e0e0e0e0e0d0d0e0e0c0d0c0b0a080808070707060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606
  pure val COSH_64: int = 0x60606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060b0b0b0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0e0f0f0f0f0f0f0f0f0f0f0f0f0f0f0e0e0e0e0d0c0b0909080807070707070707070707070707070707070707070706060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060b0b0b0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0e0f0f0f0f0f0f0f0f0f0f0f0f0f0f0e0e0e0e0d0c0b0909080807070707070707070707070707070707070707070706060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606
  pure val ERF_32: int = 0x6060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606070809090a0908080808080808080809090909090a0909090a090909090909090909080909090908090808080808070809080707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070806060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606070809090a0908080808080808080809090909090a0909090a0909090909090909090809090909080908080808080708090807070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070708
  pure val ERF_64: int = 0x60606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606070707080909090b0b0b0a0909090a0a0a0a0a0a0a0a0b0b0b0b0b0b0b0b0c0c0c0b0b0b0b0b0b0b0b0b0b0c0c0c0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0c0c0c0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0c0c0c0b090a0a0a090909090909090909090908080808080808080808080808080808080909060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606070707080909090b0b0b0a0909090a0a0a0a0a0a0a0a0b0b0b0b0b0b0b0b0c0c0c0b0b0b0b0b0b0b0b0b0b0c0c0c0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0c0c0c0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0c0c0c0b090a0a0a090909090909090909090908080808080808080808080808080808080909
  pure val ERFC_32: int = 0x6060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606070707070a0a0909080808080707070707070707060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606061c1819181c17171c1e1b1e20170c1b0d0a0808080809080808080707070707070707060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606
  pure val ERFC_64: int = 0x60606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606070707070808080a0a0a0a0a0a0808080808070707070707070707070707070707070707070707070707070707070707070707070707070707070707070606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606191c1d1d1d1b1d1d1d1b1d1d1d1c1f1f1f2121211c1c1c0e0b09090a0a0a0908080808080807070707070707070707070707070707070707070707070707070707070707070707070707070707070606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606
  pure val EXP_32: int = 0x6060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060a090a0a090a0a0a090a090909090a090a090a09080a0809070a09080607080809090808080807070707060606060606060606060606060606060606060606060606060606060606060606060606070707070606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060a090a0a090a0a0a090a0a090909090a0a0a090a08090a090709080707080809090808070707070606060606060606060606060606060606060606060606060606060606060606060606060606060707060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606
  pure val EXP_64: int = 0x60606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060a0a0a0a0a0a0a0a0b0b0b0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0809090a0a0a0a090808080707070707070707070707070707070707070707070707070707070707070707070707070707070707070707060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060607070707070707070707070707070707070707060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060a0a0b0b0b0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0b0b0b0a0a0a0a0a0a0a0908090a0a0a0a08080707070707070707070707070707070707070707070707070707070707070707070707070707070707070706060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060607070707070707070707070707070707070707
  pure val EXP10_32: int = 0x6060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606221e191c251a1a12211813131a1316170d0e0f0f09090909080808080707070707070707060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606061e21201d211720161e1c1610191813110e0d0c0c0b0a0a09080808070707070706060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606
  pure val EXP10_64: int = 0x606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a2a2a2a2827272828282824232828281e1d1d1d1a1a1a101010100a0a0a0a09090909080808080707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a262626262526262627272725252222201e1e1e1c1613100e0d0d0c0b0b0a0808080807070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606
  pure val EXP2_32: int = 0x606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606
  pure val EXP2_64: int = 0x606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060607090909070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606
  pure val EXPM1_32: int = 0x606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060707070808080808070708080909090707070707070707060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060808080909090809090809080808080809080809080808080709080807090809090807070707070707060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606
  pure val EXPM1_64: int = 0x60606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060607070707070707070808080909090908080909090909090808080807070707070707070707070707070707070707070707070707070707070707070707070707070707070706060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060609090909090909090909090909090909090a0a0a09090909090909090909090909090909090909090909090a0a0a0a08080808070707070707070707070707070707070707070707070707070707070707070707070707070707070707070606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606
  pure val LOG_32: int = 0x606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060607060606070606060706060607060606070606060706060707060607070606070706070808070708090807090908070809080708090707080807060707060607070606070706060607060606070606060706060607060606070606060706060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606
  pure val LOG_64: int = 0x6060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070708080807080808070808080809090908090909090a0a0a080a0a0a0909090908090909070808080708080807070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707
  pure val LOG10_32: int = 0x606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060706060607060606070606060707060708070608090707090907060809090708090706070807060707060606070606060706060607060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606
  pure val LOG10_64: int = 0x606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060607070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707090909080808080707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707
  pure val LOG1P_32: int = 0x606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060607080808070809090808080707070706060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060607060606070606060706060607060606070606060706060707070606070706060707060708080706070808090807070708090809080908070707070707070606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606
  pure val LOG1P_64: int = 0x60606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606070809090909090a0a0a08080807070707070707070707070707070707070707070707070707070707070707070707070707070707070707070606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060607070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070808080708080807080808070809090907080909090908080909090a0a0a0a0a080808080707070707070707070707070707070707070707070707070707070707070707070707070707070707060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606
  pure val LOG2_32: int = 0x606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606070606060706060607060606070606070707060707070708080707090907060709090708080706070707060707070606070606060706060607060606070606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606
  pure val LOG2_64: int = 0x6060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070a0a0a080909090707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707
  pure val SIN_32: int = 0x606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606
  pure val SIN_64: int = 0x909090909090909090909090909090909090909090909090909090909090909090909090909090909090909090909090909090909090909090909090909090909090909090909090909090909090909090909090909090909090909090907080809090908080807070707070707070707070707070707070707070707070707070606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060609090909090909090909090909090909090909090909090909090909090909090909090909090909090909090909090909090909090909090909090909090909090909090909090909090909090909090909090909090909090909090909070808090909080808070707070707070707070707070707070707070707070707070706060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606
  pure val SINH_32: int = 0x6060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060c08080909090809080d0908090c0d0d0d0d0d0d0d0d0e0e0e0e1112120d12110e0d110c0c0b100c0b0b0f0b0b0b0f0b0b0b0f0b0b0b0f0b0b0b0f0b0b0b0e0b0b0b0e0a0b080e08090a06060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060c08080909090809080d0908090c0d0d0d0d0d0d0d0d0e0e0e0e1112120d12110e0d110c0c0b100c0b0b0f0b0b0b0f0b0b0b0f0b0b0b0f0b0b0b0f0b0b0b0e0b0b0b0e0a0b080e08090a060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606
  pure val SINH_64: int = 0x60606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060b0b0b09090909090909090909090909090e0e0e090e0e0e0e0e0e0e0e0e0e0e0e0e0f0f0f0f13131414141313121313130d1111110c1111110c1010100c1010100c1010100c1010100c1010100b1010100b1010100b1010100b1010100b1010100b1010100b1010100b1010100b0f0f0f0b0f0f0f0b0f0f0f0b0f0f0f0b0f0f0f0b0f0f0f0b0f0f0f0b0f0f0f0a0a0a060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060b0b0b09090909090909090909090909090e0e0e090e0e0e0e0e0e0e0e0e0e0e0e0e0f0f0f0f13131414141313121313130d1111110c1111110c1010100c1010100c1010100c1010100c1010100b1010100b1010100b1010100b1010100b1010100b1010100b1010100b1010100b0f0f0f0b0f0f0f0b0f0f0f0b0f0f0f0b0f0f0f0b0f0f0f0b0f0f0f0b0f0f0f0a0a0a060606060606060606060606060606060606060606060606
  pure val TAN_32: int = 0x909090909090909090909090909090909090909090909090909090909090909090909090909090909090909090909090909090909090909090909090909090909090909090909090909090909090909090909090909090909080908090809090908090808080808080708080809080807070707060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060609090909090909090909090909090909090909090909090909090909090909090909090909090909090909090909090909090909090909090909090909090909090909090909090909090909090909090909090909090909090809080908090909080908080808080807080808090808070707070606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606
  pure val TAN_64: int = 0xa0a0a0a0a0a0a0a0b0b0b0b0b0b0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a07090a0a0a0a0a09090808070707070707070707070707070707070707070707070707070707060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060a0a0a0a0a0a0a0a0b0b0b0b0b0b0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a07090a0a0a0a0a0909080807070707070707070707070707070707070707070707070707070706060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606
  pure val TANH_32: int = 0x606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606070707080a0b0c0e0e0d0e0e15161514131211101011100f0e100f0f0f0f0f0e0e0f0f0e0d0f0f0e0d0f0f0e0d0f0f0e0d0e0e080d0e0d0c0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b060b060606060b0b06060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606070707080a0b0c0e0e0d0e0e15161514131211101011100f0e100f0f0f0f0f0e0e0f0f0e0d0f0f0e0d0f0f0e0d0f0f0e0d0e0e080d0e0d0c0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b060b060606060b0b0606060606060606060606060606060606060606060606060606060606
  pure val TANH_64: int = 0x6060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060707070707070708090b0b0d0f1010100f17171717161514141312121211111111101111111010101010101010101010101010101010101010101010101010101010101010101010101010101010101010101010101010101010101010101010101010101010101010101010101010101010101010100e0d0d0d0c0c0c0c0c0c0c0c0c0c0c0c0c0c0c0c0c0c06060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060707070707070708090b0b0d0f1010100f17171717161514141312121211111111101111111010101010101010101010101010101010101010101010101010101010101010101010101010101010101010101010101010101010101010101010101010101010101010101010101010101010101010100e0d0d0d0c0c0c0c0c0c0c0c0c0c0c0c0c0c0c0c0c0c
  pure val TGAMMA_32: int = 0x606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606
  pure val TGAMMA_64: int = 0x707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707074e51545859596969696363666969696c6e6e8d8d8d7979797b7b7b6c6f6f6f6b6c6c6c606464644c545b5b5b53555555565959594f5d5d5d535f5f5f495c5c5c4d5a5a5a545b5b5b4c6464644b6262624f6969694d636363545c5c5c4f61616152646464546666664d6161615f626262516666664e6c6c6c4e5c5c5c516464644d5d5d5d516161615267676748636363486666664a5b5b5b47616161515d6464070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707070707454747484a4e4e4e4d51515c5c5c5b61616176767673757575737365655c5c5c47494d4d4d4a555555424a4a4a505353535252524c5657575758585851585858545c5c5c4b5e5e5e4a5c5c5c485b5b5b475f5f5f435f5f5f545d5d5d52565656435c5c5c425b5b5b436060604b5d5d5d515d5d5d4b606060445b5b5b3e5c5c5c445c5c5c465d5d5d435757573c5e5e5e44606060435c5c5c455d5d5d455c6060
  pure val LGAMMA_32: int = 0x6060606060c0b0b0e10100f0e111010141313121211101413121214131214141312161514131413121616151416151419181716120f0f12111010161512151414181616181817151918171b15191f1c201e263b7f4d3f3e2f241d1c171814171813191819171f2120201f211f19191a19191a1a191919191816161616161616161617161616161616131617111213141414151414141415141415141414141514151515151515141413121514111112141515141309080808070707070706060606060606060606060606060606060606060606060606060606060606060606060614141312190b0b0a0c0c0b0b0d0d0c0c100e0e0e0d0c0c0f0f0e0d100f0e10100f0d1111100e100f0e1212110f12100f151413120e0b0b0e0d0c0c11110e11100f1012121414131216141312110f131214131319160e0d0e0f100d110b0c100e0f121416140c0e140c0c0c0d100b0b0c0b0b0b0c0b0b0b0b100b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0d0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b09090b0a0808090a0b0b0a0a090808080707070707060606060606060606060606060606060606060606060606060606060606060606060606
  pure val LGAMMA_64: int = 0x1d1d1d1d1d1d171a1a1a18191919181a1a1a1a1a1a1a1a1a1a1a1b1b1b1a1b1b1b1c1c1c1b1c1c1c1d1d1d1d2626261e1e1e1e1c1b191e1e1e1a2020202222222525252121211e282828242929293effffffffffffe5824c4c372727271e1e202023232322262a2a2a29292828242222221f202020202020201e1c1c1c1d1d1d1d1c1d1d1d1c1d1d1d1c1c1c1c1c1c1c1c1b1b1b1b1b1b1b1b1b1b1a1a1a1a1a1a1a1b1b1b1a1b1b1b1a1b1b1b1a1b1b1b1a1a1a1a1a1a1a1b1b1b1a1a1a1a1a1a1a18171818191919191a1a1a1a1a1a1a1a1a1a1a1a1a1a1a1a1a1a1a1a1a1a1a1a18181718181811141414121414141315151515151515151515151616161616161617171716171717181818181919191a1a1a1918161415151515161616171717181818191919191c1c1c19171718181a1a1a2020201c1213141414141412121318191b1b1b1919191910101414140f0f0f0e0e0e0e0e0e1414140e0e0e0e0e0e0e0e0e0e0e0e0e0e0e0e0e0e0e0e1414140e0e0e0e0e0e0e0e0e0e0e0e0e0e0e0e0e0e0e0e0e0e0e0e0e0e0e0e0e0e0e0e0e0e0e0e0e0e0e0e0e0e0e0e0e0e0e0e0e0e0e0e0e0e0e0e0e0e0e0e0e0e0e0e0e0e0e0e0e0e0e0e0e0e0e0e0e0e0e0e0e
  pure val ATAN2_32: int = 0x60606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060707070707070707070707080a0d0d0d0d0d0b0a0a09090909090909090909090909090909090909090906060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060707070707070a0b0b0f0f0f0f1010101011111111100c0a09080808080808080808080808080808080808080808080808080808080808080808080808080808080808080808080808080808080808080808080808
  pure val ATAN2_64: int = 0x6060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606070707070707070707070708090e0f0f0f0f0d0c0c0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0909090909090909090906060606060606060606060606060606060606060606060606060606060707070707080b0b0b0b0b0b0b0b0b0d0d0d0d0d1010101010111111111111111111110f0c0a09080707070707070707070706060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606
  pure val HYPOT_32: int = 0x60606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060a0a0a0a0a0a0a0a0a0a0a0a0a0b0b
  pure val HYPOT_64: int = 0x6060606060606060606060606060606060606060606060606060606060606060606060a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0b0c0c
  pure val POW_32: int = 0xa0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0807070707070707070707070606060606060606060606090a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0b0b0b0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a08070707070707070707070706060606060606060606
  pure val POW_64: int = 0xa0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a080707070707070707070707060606060606060a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a0a08070707070707070707070706060606060606
  pure val J0_32: int = 0x2110111417191b1d2010111317191b1e22111316191b1d1f22111416191a1c2024121315191b1e1f23121316181b1c20231214171b1d201a211215191a1f1f25281416171d202023271516181e1e212228131519181f2013281514100c0b0d0f0f0909090a13131313141414141414141414141314121110100f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606062110111417191b1d2010111317191b1e22111316191b1d1f22111416191a1c2024121315191b1e1f23121316181b1c20231214171b1d201a211215191a1f1f25281416171d202023271516181e1e212228131519181f2013281514100c0b0d0f0f0909090a13131313141414141414141414141314121110100f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f06060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606
  pure val J0_64: int = 0x2222171a1f2020272727181a1b2121242424171a1c1f21242424171b1b1e20242424171d1d202023232316191c1d20282828161b1c1f20252525181b1c1f25292929171a1c1e21262626151a1c1f2126262617171d1d1d27272713130f0e101111110a0a1414151515151515151515151515151515151515151515151515151515151515151515151515151515151515151515131211070707070707070707070606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606062222171a1f2020272727181a1b2121242424171a1c1f21242424171b1b1e20242424171d1d202023232316191c1d20282828161b1c1f20252525181b1c1f25292929171a1c1e21262626151a1c1f2126262617171d1d1d27272713130f0e101111110a0a141415151515151515151515151515151515151515151515151515151515151515151515151515151515151515151513121107070707070707070707060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606
  pure val J1_32: int = 0x190b0c0f11121315180c0c1011121316170c0c1011121315180c0c0f11121315180c0c0f11121315180c0c0f11121314170b0c0e0f0f0f1b1b0b100f1517191a1e0f10111617181b1d0f10131517181a1c0f10101510161a19080d12161512100c060606060b0a0a0b0b0a0a0b0b0a0a0a0b0a0a090b0a09090a0a09090b0a09090a090909090708070808060806060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606190b0c0f11121315180c0c1011121316170c0c1011121315180c0c0f11121315180c0c0f11121315180c0c0f11121314170b0c0e0f0f0f1b1b0b100f1517191a1e0f10111617181b1d0f10131517181a1c0f10101510161a19080d12161512100c060606060b0a0a0b0b0a0a0b0b0a0a0a0b0a0a090b0a09090a0a09090b0a09090a090909090708070808060806060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606
  pure val J1_64: int = 0x2727181e1e2224272727191d1e2323292929191c1f20242b2b2b191c1d2025292929181d1f2223282828181d1f2123272727181d1f2223282828181d1f2025282828181c1f22252727271a1d1e2126272727171e1e2125252522191d1d1d1613110d06060c0c0c0c0c0c0c0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0a0a0909080807080808060606060606060606060606060606060606060606060606062727181e1e2224272727191d1e2323292929191c1f20242b2b2b191c1d2025292929181d1f2223282828181d1f2123272727181d1f2223282828181d1f2025282828181c1f22252727271a1d1e2126272727171e1e2125252522191d1d1d1613110d06060c0c0c0c0c0c0c0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0a0a090908080708080806060606060606060606060606060606060606060606060606
  pure val Y0_32: int = 0x60606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606062110111416181b1e2010111519191c1e221113151a1c1e21221213161a1b1d1f24121315181b1d20241213161a1b1e1f251214171a1c201b211215181b1f2022271516171c1f21232915161a1d1d2124281416171d181e24230b141a1d1712100d0606080a271e24272a1c1c22252727282b2a191c1c1b1c2122232323242625242324252616141817161313130c0e0e0d0d0e0e0e0f0f0f0f0f0f0f0f101010101010101010101111101010101010101010101010101111111111111114141414141414141414141414141414141415151515151515151515151515151515151516
  pure val Y0_64: int = 0x60606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606062323171a1c202025252518191c1d2022222215191a1c20242424191d1d1d1f262626151b1b1e2226262616191d1d20232323161a1b1d21232323151c1d1d21252525161c1c1e22242424161d1d1e20232323151b1b1c2222221f151b1b1b1a13100d080b2b2b2b2a2b2b2b242727282b2b2f2f2f1e1e1e2526262628282b2b2c2d2d2d2e2e2e1e1e1e1e1f1f1f1f24272727242424241f1f20202020201f1f202020202121212122222217171717171717171717171617171716161613151a1a1a19161515141214141412111110100f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f0f1212
  pure val Y1_32: int = 0x6060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606180c0c0f11121315180c0c0f11121415180b0c1011121415170c0d0f11121315180b0c0f11121315180b0c0f11121315170b0b0e0f0f0f1b1b0b100f1617181b1d0f10111516181a1e0f10111517181a1e0c10141117180e1e0f0e0c08111114170f1114181b1c1c171a1b1c171b1b1c161a1b1c151a1b1c141a1b1c141a1b1c141a1b1c131a1b1c14171b1a0f141318111310190f0d17170f1213130d1112120d1111120d1011120d1011120d1011120d1011120d1011120d1011120d1011120d1011120d0b0b0c0a0b0b0c0a0b0b0c0a0b0b0c0a0b0b0c0a0b0b0c0a0b0b0c0a0c
  pure val Y1_64: int = 0x60606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606060606062a2a181e1f2021272727181e1e2525262626171c1e21212727271a1c1e2023272727171e1f20222c2c2c171b1f20232b2b2b171b1d1f23272727191b202028282825181c1d2022262626181c1e22252a2a2a1c1c1e1f1f2a2a2a141413131417171715181c1c1d1d1d1c1d1d1d1c1d1d1d1c1c1c1c1c1c1c1c1c1d1d1d1c1d1d1d1b1d1d1d1c1c1c1c1c1d1d1d1c1d1d1d1c1c1c1c1c1d1d1d1c1c1c1c1c1d1d1d1b1d1d1d1c1d1d1d1c1c1c1c1c1d1d1d1c1d1d1d1c1d1d1d1c1d1d1d1c1c1c1c1b1c1c1c1b1b181814151515131818181717170f10111111111212121112121212
  pure def profileOf(fam: int, w: int): int =
    if (fam == 40) (if (w == 32) ACOS_32 else ACOS_64) else
    if (fam == 41) (if (w == 32) ACOSH_32 else ACOSH_64) else
    if (fam == 42) (if (w == 32) ASIN_32 else ASIN_64) else
    if (fam == 43) (if (w == 32) ASINH_32 else ASINH_64) else
    if (fam == 44) (if (w == 32) ATAN_32 else ATAN_64) else
    if (fam == 45) (if (w == 32) ATANH_32 else ATANH_64) else
    if (fam == 46) (if (w == 32) COS_32 else COS_64) else
    if (fam == 47) (if (w == 32) COSH_32 else COSH_64) else
    if (fam == 48) (if (w == 32) ERF_32 else ERF_64) else
    if (fam == 49) (if (w == 32) ERFC_32 else ERFC_64) else
    if (fam == 50) (if (w == 32) EXP_32 else EXP_64) else
    if (fam == 51) (if (w == 32) EXP10_32 else EXP10_64) else
    if (fam == 52) (if (w == 32) EXP2_32 else EXP2_64) else
    if (fam == 53) (if (w == 32) EXPM1_32 else EXPM1_64) else
    if (fam == 54) (if (w == 32) LOG_32 else LOG_64) else
    if (fam == 55) (if (w == 32) LOG10_32 else LOG10_64) else
    if (fam == 56) (if (w == 32) LOG1P_32 else LOG1P_64) else
    if (fam == 57) (if (w == 32) LOG2_32 else LOG2_64) else
    if (fam == 58) (if (w == 32) SIN_32 else SIN_64) else
    if (fam == 59) (if (w == 32) SINH_32 else SINH_64) else
    if (fam == 60) (if (w == 32) TAN_32 else TAN_64) else
    if (fam == 61) (if (w == 32) TANH_32 else TANH_64) else
    if (fam == 62) (if (w == 32) TGAMMA_32 else TGAMMA_64) else
    if (fam == 63) (if (w == 32) LGAMMA_32 else LGAMMA_64) else
    if (fam == 65) (if (w == 32) ATAN2_32 else ATAN2_64) else
    if (fam == 66) (if (w == 32) HYPOT_32 else HYPOT_64) else
    if (fam == 67) (if (w == 32) POW_32 else POW_64) else
    if (fam == 69) (if (w == 32) J0_32 else J0_64) else
    if (fam == 70) (if (w == 32) J1_32 else J1_64) else
    if (fam == 71) (if (w == 32) Y0_32 else Y0_64) else
    if (fam == 72) (if (w == 32) Y1_32 else Y1_64) else
    -1
  // families without a profile have no bound here
  pure def allowed(fam: int, w: int, i: int): int =
    if (fam > 72 or w == 16 or w == 128) 255 else (profileOf(fam, w) / 256^i) % 256
}
