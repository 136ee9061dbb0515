"""Which harness entry points decide which property, in which configuration, with which bounds."""
WORKERS = 8
HOOK_COMMITS = ["8dde6ff7b9b3d4f876737f65f93ac42feaef25a1", "1c7fe39094eef7bae330228d745eacca8a22d0f6"]
ASSUMPTIONS = [
    "rustc/LLVM of the pinned toolchain translate the source to the IR that is executed symbolically; the executor (/verif/engine) "
    "implements LLVM IR semantics (validated on every run against natively compiled code on concrete inputs)",
    "the SMT solvers z3 and cvc5 are sound",
    "memory allocation succeeds and returns fresh, suitably aligned blocks",
]


def I(cfg, h, **kw):
    d = {"cfg": cfg, "h": h}
    d.update(kw)
    return d


def IS(cfgs, hs, **kw):
    return [I(c, h, **kw) for c in cfgs.split() for h in hs.split()]


PROPS = {}


def prop(pid, items, bounds, outside="", **kw):
    PROPS[pid] = dict(items=items, bounds=bounds, outside=outside, **kw)


prop("C01", IS("b64", "h_iadd_small h_isub_small", cost=50) + IS("b64", "h_iadd_3_3 h_isub_3_3 h_sub_8_8 h_add_chain", cost=15)
     + IS("b64", "h_add_small h_add_4_4 h_add_6_3 h_add_3_6 h_add_8_8 h_sub_small h_sub_4_4 h_sub_6_3 h_iadd_4_2 h_iadd_2_4 "
          "h_isub_4_2 h_isub_2_4 h_sub_self") + IS("b64", "h_sub_3_6", noreach=True),
     "unsigned: every pair of lengths 0..3 words plus 4+4, 6+3, 3+6, 8+8 words; signed: every pair of lengths 0..2 words plus 3+3, 4+2, "
     "2+4, both signs; all ref/value/assign forms; all word values",
     "longer operands")

prop("C02", IS("b64", "h_imul_small h_mul_6_6", cost=40, timeout=600) + IS("b64", "h_mul_small h_mul_3_1 h_mul_1_3 h_mul_3_2 h_mul_2_3 h_mul_3_3 h_mul_4_4 h_mul_6_3 h_mul_8_2 "
     "h_mul_5_5", cost=5) + IS("b64", "h_mul_9_4", cost=15, timeout=600) + IS("b64", "h_mulx_26_26_0_0", cost=40, timeout=600) + IS("s64", "h_mulx_4_4_4_5 h_mulx_3_3_4_5", cost=90, timeout=800)
     + IS("s64", "h_muly_3_3_0_0", cost=10, timeout=600) + IS("s64", "h_mulc_4_0 h_mulc_3_0", cost=50, timeout=800),
     "every pair of lengths 0..2 words in all operand forms and both signs, 3x1, 1x3, 3x2, 2x3, 3x3, 4x4, 5x5, 6x3, 6x6, 8x2, 9x4 words, all word values; "
     "Karatsuba multiplication, entered at 3 words in a configuration that lowers the thresholds: one operand any value and the other a fixed pattern, "
     "or one word of each operand any value (all position pairs) and the rest a fixed pattern; Karatsuba at its own threshold: 26x26 words, one symbolic word in each",
     "longer operands, other patterns", )

prop("C03", IS("s8", "h_div_short", cost=90, timeout=500) + IS("s8", "h_div8_2 h_div2s_3c h_div_forms_3", cost=50, timeout=500)
     + IS("s8", "h_div_forms_2 h_div2s_3a h_divc_4_3_0 h_divc_4_3_5 h_divx_8_4_7_9", cost=8, timeout=400) + IS("s8", "h_divx_8_4_0_0", cost=28, timeout=400)
     + IS("b64", "h_div1s_3 h_div1s_4_2 h_div1s_4_4 h_div1s_4_5 h_div1s_4_8 h_div1s_4_9 h_div2s_2 h_div2s_3b h_divc_3_2_7", cost=30, timeout=500)
     + IS("b64", "h_div_1_1 h_div1s_2 h_divc_2_1_0 h_divc_2_1_7 h_divc_3_1_7 h_divc_3_2_0 h_divc_4_3_0 h_divc_4_3_5 h_divx_8_4_7_9", cost=5, timeout=400)
     + IS("b64", "h_div_zero", noreach=True) + IS("s8", "h_div8_3", cost=200, thorough=True, timeout=900),
     "64-bit words: one word by one word, any values; dividends of 2, 3 and 4 words, any values, by one-word divisors from a set of extreme and ordinary values; "
     "2 and 3 words by two-word and 4 words by three-word divisors from a set; 8 by 4 words with two symbolic words; 8-bit words with lowered thresholds: two words "
     "by every one-word divisor; the same multi-word shapes including the divide-and-conquer algorithm; all operand forms; every dividend shorter than the divisor (1 to 3 words)",
     "symbolic multi-word divisors, longer quotients")

prop("C04", IS("b64", "h_idiv_1 h_ieucl_1 h_idiv_short_1_1 h_ieucl_short_1_1", cost=20, timeout=400)
     + IS("b64", " ".join(f"h_{f}_s{k}_{n}" for f in ("idiv", "ieucl") for k, n in [(0, 1), (0, 2), (0, 3), (1, 1), (1, 2), (1, 3), (2, 1), (3, 1), (3, 2), (3, 3), (4, 1)]), cost=8, timeout=400)
     + IS("b64", " ".join(f"h_{f}_short_{k}_{n}" for f in ("idiv", "ieucl") for k, n in [(1, 0), (2, 0), (2, 1), (3, 0), (3, 1), (3, 2)]))
     + IS("s8", "h_idiv_s2_2 h_idiv_s2_3 h_idiv_s4_2 h_ieucl_s2_2 h_ieucl_s2_3 h_ieucl_s4_2", cost=30, timeout=400)
     + IS("s8", "h_idiv_short_2_2 h_idiv_short_3_3 h_ieucl_short_2_2 h_idiv_1 h_ieucl_1", cost=80, timeout=600)
     + IS("s8", "h_idiv_s4_3 h_ieucl_s4_3 h_ieucl_short_3_3", cost=150, timeout=900, thorough=True),
     "one word by one word, all values and signs; dividends of 1 to 3 words, all values and signs, by a set of one- and two-word divisors of both signs (some shapes with "
     "8-bit words); every dividend smaller than its divisor, up to 3 words; truncating and Euclidean operators in all operand forms",
     "longer operands and arbitrary multi-word divisors (the magnitudes are divided by the unsigned operator, see C03)")

def J(fmt, *xs):
    return " ".join(fmt.format(x) for x in xs)


ALLR = range(2, 37)
prop("C11", IS("b16", J("h_pany_{}_1", *ALLR) + " " + J("h_pany_{}_2", *[r for r in ALLR if r not in (14, 17, 18, 19, 21, 22, 23, 24, 25, 27, 28, 29, 30, 31, 33, 34)]) + " "
        + J("h_pany_{}_0", 2, 3, 8, 10, 16, 36), cost=8)
     + IS("b16", "h_pany_10_3 h_pany_3_3 h_pany_8_3 h_pany_2_3 h_pany_36_3", cost=18, timeout=300) + IS("b16", "h_pany_16_3", cost=55, timeout=400)
     + IS("b16", J("h_pany_{}_2", 14, 17, 18, 19, 21, 22, 23, 24, 25, 27, 28, 29, 30, 31, 33, 34), thorough=True)
     + IS("b64", "h_ppre_0 h_ppre_1 h_ppre_2 h_ppre_3 h_ppre_4", cost=35, timeout=400) + IS("b64", "h_radix_invalid", noreach=True) + IS("b64", "h_parse_utf8")
     + IS("b64", "h_plong_10_5 h_plong_10_8 h_plong_10_12 h_plong_3_12 h_plong_3_17 h_plong_36_12 h_plong_36_17 h_plong_36_40 h_plz_10_12 h_plz_36_17 h_plz_36_24", cost=32, timeout=500)
     + IS("b64", "h_plet_16_8 h_plet_16_16 h_plet_16_17 h_plet_16_40 h_plet_36_5", cost=20, timeout=400)
     + IS("b64", "h_plong_2_8 h_plong_2_60 h_plong_8_21 h_plong_8_41 h_plong_16_5 h_plong_16_16 h_plong_16_17 h_plong_16_33 h_plz_8_21 h_plz_16_17 h_plz_16_40 "
          "h_pbad_2_60 h_pbad_3_12 h_pbad_8_41 h_pbad_10_5 h_pbad_10_20 h_pbad_10_40 h_pbad_10_60 h_pbad_16_16 h_pbad_16_40 h_pbad_36_12 h_pbad_36_60", cost=3, timeout=300)
     + IS("s16", "h_plong_10_12 h_plz_10_12", cost=40, timeout=500)
     + IS("s16", "h_plong_2_33 h_plong_3_8 h_plong_3_12 h_plong_3_17 h_plong_8_41 h_plong_16_33 h_plong_10_8 h_plong_10_5 h_plong_36_5 h_plz_10_8 h_plz_3_21 h_plz_36_8 "
          "h_pbad_3_12 h_pbad_10_20 h_pbad_10_60 h_pbad_36_17 h_plet_16_16 h_plet_16_17", cost=10, timeout=300),
     "every ASCII string of 1 character in every radix, of 2 characters in 19 radixes (in all of them in the thorough tier), of 3 characters in radix 2, 3, 8, 10, 16 and 36, and of "
     "0 to 4 characters for parsing with a prefix and FromStr; all numerals of digits 0-9 of fixed lengths up to 60 characters (power-of-two radix) and 12 to 40 "
     "(other radixes), with leading zeros too, hexadecimal ones of letters of either case up to 40; any bad character at any place of strings of up to 60 characters; every invalid radix; "
     "a set of non-ASCII strings; the divide-and-conquer parser is entered through lowered thresholds", "longer strings; arbitrary mixes of digits and letters beyond 3 characters")

prop("C12", IS("b16", J("h_fmt_{}_1", *ALLR) + " h_fmt_zero", cost=2) + IS("b16", J("h_fmt_{}_2", 2, 3, 4, 5, 6, 7, 8, 9, 10, 16, 32) + " " + J("h_fmt_{}_3", 2, 3, 4, 5, 6, 7, 8, 9, 10, 16, 32), cost=4)
     + IS("b16", "h_fmt_12_2", cost=20, timeout=400) + IS("b16", "h_fmt_36_2 h_fmt_26_2 h_fmt_20_2", cost=60, timeout=600, thorough=True)
     + IS("b64", "h_fmt_10_1 h_fmt_10_2 h_fmt_10_3 h_fmt_3_2 h_fmt_8_2 h_fmt_16_2 h_fmt_32_2 h_fmt_2_6", cost=20, timeout=400)
     + IS("b64", "h_fmt_16_3 h_fmt_32_3", cost=40, timeout=500) + IS("b64", "h_fmt_3_3 h_fmt_16_4 h_fmt_32_4", cost=60, timeout=600, thorough=True)
     + IS("s16", "h_fmtx_10_5_0_0 h_fmtx_10_6_7_0 h_fmtx_10_8_7_0 h_fmtx_10_12_0_0 h_fmtx_10_12_7_0 h_fmtx_10_5_0_2 h_fmtx_10_8_0_2 h_fmt_2_4 h_fmt_8_6 h_fmt_16_4 h_fmt_32_6", cost=25, timeout=500)
     + IS("s16", "h_fmtx_10_8_7_2 h_fmtx_10_12_7_2 h_fmtx_10_5_7_2", cost=45, timeout=600)
     + IS("b8", J("h_flags_{}_1", *range(9)) + " " + J("h_flags_{}_0", *range(9)), cost=12) + IS("b64", "h_flags_3_1", cost=25, timeout=400)
     + IS("b8", "h_fmtup_10_1 h_fmtup_10_2 h_fmtup_13_1 h_fmtup_13_2 h_fmtup_13_3 h_fmtup_16_1 h_fmtup_16_2 h_fmtup_16_3 h_fmtup_32_1 h_fmtup_32_2 h_fmtup_36_1 h_fmtup_36_2", cost=5)
     + IS("b64", "h_radix_invalid", noreach=True),
     "16-bit words: one word in every radix from 2 to 36, two and three words in radix 2 to 10, 16, 32 (two in radix 12); 64-bit words: 1 to 3 words in radix 10, 16, 32, two in radix 3 and 8; "
     "5 to 12 16-bit words with one symbolic word through the divide-and-conquer printer (lowered thresholds); every fmt trait with 3 to 13 combinations of "
     "sign, prefix, fill, alignment and zero flags and 9 widths, for every one-word number of either sign (8-bit words; octal also 64-bit) and zero; invalid radixes",
     "longer numbers; other widths; precision (not documented)")

prop("C13", IS("b16", J("h_round_{}_1", *[r for r in ALLR if r != 3]), cost=12, timeout=300) + IS("b16", "h_round_3_1", cost=70, timeout=600)
     + IS("b16", "h_round_2_3 h_round_4_3 h_round_8_3 h_round_10_2 h_round_7_2 h_iround_0_1 h_iround_0_2 h_iround_1_1 h_iround_2_1 h_iround_3_2 h_iround_4_2", cost=12, timeout=300)
     + IS("b16", "h_round_10_3 h_round_32_2", cost=45, timeout=500) + IS("b16", "h_round_3_2", cost=40, timeout=500, thorough=True)
     + IS("b8", "h_iround_1_2 h_iround_2_2 h_iround_0_2", cost=10) + IS("b64", "h_iround_3_1 h_iround_3_2 h_round_8_3", cost=25, timeout=400),
     "16-bit words: every one-word number in every radix; two or three words in radix 2, 4, 7, 8, 10, 32; signed numbers of one and two words through Display/FromStr and the prefixed binary, "
     "octal and hexadecimal forms (two-word hexadecimal with 8-bit words); 64-bit words: octal", "longer numbers")

prop("C10", IS("b64", "h_float_1000_1030 h_float_257_320", cost=70, timeout=500) + IS("b64", "h_float_161_192 h_float_193_256 h_float_97_128", cost=30, timeout=400)
     + IS("b64", "h_float_zero h_float_1_32 h_float_33_64 h_float_65_96 h_float_129_160 h_float_511_514 h_float_1088_1089", cost=10, timeout=300)
     + IS("b16", "h_float_1_32 h_float_33_64 h_float_65_96 h_float_97_128 h_float_129_160", cost=15, timeout=400),
     "every number of 1 to 320, 511 to 514, 1000 to 1030 and 1088 to 1089 bits, both signs, and zero, to f32 and f64, compared bit by bit with "
     "round-to-nearest-even; also 16-bit words up to 160 bits", "numbers of other bit lengths up to 1024 (the code treats them alike) and above 1089 bits")

RND = "h_rand_direct_2 h_rand_direct_3 h_rand_tie_2_1 h_rand_tie_3_1 h_rand_tie_3_2 h_rand_tie_5_3 h_rand_rej_2_1 h_rand_rej_3_1 h_rand_rej_3_2"
prop("C19", IS("b64", RND + " h_rand_in_1_1 h_rand_in_1_3 h_rand_in_1_10 h_rand_in_3_2 h_rand_in_2_1 h_rand_in_2_5 h_rand_empty h_rand_single", cost=15, timeout=400)
     + IS("b64", "h_rand_direct_5", cost=50, timeout=500)
     + IS("b64", J("h_rand_reach_1_{}", 1, 2, 3, 6, 10, 100, "big") + " " + J("h_rand_reach_2_{}", 1, 2, 5, 9, "big") + " h_rand_reach_3_1 h_rand_reach_3_6"),
     "every source word is any value. Ranges of 2, 3 and 5 words with the top word all ones, any lower words and any start of 0 to 2 words and either sign: the sample is start plus the "
     "source words, drawn again exactly when they are not below the range (first word decides; one, two or three leading words tie); ranges of 1 to 3 words with a set of top words: "
     "every value below the range is the sample for some source; the sample lies in the range; empty ranges (0 to 2 words) panic and others do not; ranges of one value",
     "other top words; the word sampler of the rand crate is executed, but its own uniformity over rejected draws is not an obligation; more than one rejection")

prop("C14", IS("b64", "h_pow_1_4", cost=40, timeout=500) + IS("b64", "h_pow_0 h_pow_1 h_pow_2 h_pow_1_3 h_ipow_0 h_pow_base01 h_pow_base2", cost=5, timeout=400)
     + IS("s8", "h_pow_1_6 h_pow_1_7 h_ipow_3", cost=90, timeout=600) + IS("s8", "h_pow_1_3 h_pow_1_4 h_pow_1_5 h_pow_base01 h_pow_base2", cost=5),
     "64-bit words: any base of 0..3 words to the powers 0, 1 and 2, any one-word base to the powers 3 and 4, the bases 0, 1 and -1 to every exponent, 2 and -2 to every "
     "exponent below 200; 8-bit words: any one-word base up to the power 7 and signed ones to the powers 3 to 5", "larger exponents with other bases")

prop("C15", IS("b64", "h_gcd_zero " + " ".join(f"h_gcd_{b}_{n}_z{z}" for b in (1, 2) for n in (1, 2) for z in (0, 2)), cost=2, timeout=300)
     + IS("s8", "h_gcd_zero h_gcd_eq " + " ".join(f"h_gcd_{b}_{n}_z{z}" for b in (1, 2) for n in (1, 2, 3) for z in range(4)))
     + IS("s8", " ".join(f"h_gcd_{b}_1_z{z}" for b in (3, 4, 5, 6, 8, 10, 12, 15) for z in range(4)), cost=40, timeout=500)
     + IS("s8", "h_gcd_16_2_z3 h_gcd_16_3_z3 h_gcd_2wa_2_z7 h_gcd_2wa_3_z7 h_gcd_2wa_1_z7 h_igcd_1_1 h_igcd_1_2 h_igcd_1_3 h_igcd_2_1 h_igcd_2_2", cost=10, timeout=400),
     "8-bit words: one operand any number of one word with 0 to 3 trailing zero bits and the other 1 to 6, 8, 10, 12 or 15; 1 to 3 words with 1, 2 or 16, and two-word "
     "second operands; signed operands of 0 to 2 words; 64-bit words: 1 and 2 words with 1 or 2; zero with 0 to 3 words; both argument orders",
     "two large arbitrary operands")

prop("C16", IS("b64", "h_mod_zero h_mod_modulus h_mod_mulforms h_mod_conv2_short h_mod_conv2_3a h_mod_mulw_3_7", cost=10, timeout=400)
     + IS("b64", "h_mod_prims h_mod_conv1 h_mod_conv1_3 h_mod_ops1", cost=70, timeout=600)
     + IS("b64", "h_mod_conv2_3b h_mod_mulw_2_7 " + " ".join(f"h_mod_mul1_{k}" for k in range(10)), cost=20, timeout=500)
     + IS("b64", " ".join(f"h_mod_ops2_{k}" for k in (0, 1, 4, 6, 7, 10, 12, 14, 15)) + " h_mod_ops3_14 h_mod_ops3_15", cost=25, timeout=500)
     + IS("b64", "h_mod_ops2c_3 h_mod_ops2c_5 h_mod_ops2c_9 h_mod_ops2c_11 h_mod_ops2c_2 h_mod_ops2c_8", cost=25, timeout=500)
     + IS("b64", "h_mod_ops2c_short_a h_mod_ops2c_short_s h_mod_ops2c_short_n", cost=35, timeout=500)
     + IS("s8", "h_mod_conv2_3c h_mod_conv3_4 h_mod_mulc_2_4_7", cost=80, timeout=600),
     "64-bit words: sums, differences, negation, equality of any two elements modulo any normalised two-word modulus (negation, copies and equality also three-word ones), "
     "modulo a set of one-word and unnormalised two-word moduli; products of any two elements modulo 10 one-word moduli, of one-word numbers modulo a two- and a three-word "
     "modulus; conversion of any number of 0 to 3 words modulo 10 one-word moduli and two-word moduli, of every primitive type; some two- and three-word conversions and "
     "products with 8-bit words; modulus of 1 to 4 words given back", "other moduli; longer operands")

prop("C17", IS("b64", "h_mod_mix " + " ".join(f"h_mod_pow1_{k}_{e}" for k in (0, 1, 2, 4, 5, 6, 8, 9) for e in (2, 3, 5)), cost=20, timeout=400)
     + IS("s8", " ".join(f"h_mod_pow1_{k}_{e}" for k in range(10) for e in (3, 5, 8)) + " " + " ".join(f"h_mod_inv_{k}" for k in (1, 2, 3, 5, 7, 13, 31)), cost=6, timeout=400),
     "64-bit words: any element modulo 8 one-word moduli to the powers 2, 3 and 5; 8-bit words: modulo 10 moduli to the powers 3, 5 and 8; inverses of every element modulo "
     "seven small moduli; every operator on elements of different rings", "other moduli and exponents; moduli of several words")

prop("C05", IS("b64", "h_ior_3_3 h_ixor_3_3 h_ixor_4_2", cost=50) + IS("b64", "h_iand_s h_ior_s h_ixor_s h_iandnot_s h_iand_3_3 h_iand_2_4 h_ior_4_2", cost=25)
     + IS("b64", "h_uand h_uor h_uxor h_uandnot h_uand_6_4 h_uor_4_6 h_uxor_6_6 h_uandnot_6_6 h_iandnot_3_3 h_iandnot_2_4 h_inot"),
     "unsigned: every pair of lengths 0..3 words plus 6/4/6 words; signed: every pair of lengths 0..2 words plus 3&3, 2&4, 4|2 words, all "
     "signs; all operand forms; all word values", "longer operands")

prop("C06", IS("b64", "h_shl_every h_shr_every", cost=25) + IS("b64", "h_shl h_shr h_ishl h_ishr h_shl_forms h_shr_forms h_ishl_forms h_ishr_forms "
     "h_shl_spare h_shr_huge h_shl_zero_huge h_shl_shr", cost=10) + IS("b64", "h_ishr_every1 h_ishr_every2", cost=60) + IS("b64", "h_ishr_every3", thorough=True, timeout=600),
     "numbers of 0..3 words (4 for shifts into spare capacity), all word values and signs; unsigned: every shift count from 0 to 193 bits; "
     "signed right shifts of 1 and 2 words by every count up to 193; otherwise counts around word boundaries, and counts far beyond the length up to the largest count",
     "longer numbers; left shifts whose result does not fit in memory")

prop("C07", IS("b64", "h_hash_eq", cost=30) + IS("b64", "h_ucmp h_ucmp_6_6 h_icmp h_iord_ops h_normalize h_clone h_clone_from h_zero_unique", cost=5),
     "numbers of 0..3 words (0..5 for cloning and normalisation, 6+6 for comparison), all word values and signs; canonical form of results is "
     "also an obligation in every other check", "longer numbers")

prop("C08", IS("b64", "h_from_u h_utry_i h_ifrom_u h_ifrom_i h_to_u8 h_to_u16 h_to_u32 h_to_u64 h_to_usize h_to_u128 h_to_i8 h_to_i16 h_to_i32 "
     "h_to_i64 h_to_isize h_to_i128 h_from_bool h_ubig_ibig", cost=10),
     "every value of all 12 primitive integer types and bool; big integers of 0..3 words (every conversion is decided by the first 3 words and the length)",
     "longer big integers")

prop("C09", IS("b64", "h_from_le h_from_be h_from_le_long h_from_be_long h_to_bytes h_to_bytes_4 h_to_bytes_6"),
     "byte strings of 0..18, 23, 24, 25, 31, 32, 33 and 39 bytes, all contents; numbers of 0..4 and 6 words, all values", "longer inputs")

prop("C20", IS("b64 b32 b16", "h_serde_u h_serde_i h_serde_u_long h_serde_any h_serde_neg_zero", cost=5),
     "numbers of 0..3 words and longer fixed lengths (all word values, both signs) written and read back, and arbitrary sequences of 64-bit words read, on 64-, 32- and 16-bit word builds",
     "longer numbers; deserialisers that misreport their length; text formats themselves")

ALLT = "u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize".split()


def V(ops, types, **kw):
    return [I("b64", f"h_v{o}_{t}", cost=(30 if t == "i128" else 15 if t == "u128" else 5) * (3 if "mul" in o or "div" in o else 1), **kw)
            for o in ops.split() for t in types]


prop("C22", V("u_add u_sub u_and u_or u_xor u_andnot i_add i_sub i_rsub i_and i_or i_xor i_andnot", ALLT)
     + V("u_mul i_mul", "u8 u64 u128 i16 i64".split()) + V("u_mul", ["i128"]) + V("u_div i_div", "u8 u128 usize i64 i128".split(), timeout=300)
     + V("i_mul", ["i128"], thorough=True, timeout=600) + V("u_mul i_mul", "u16 u32 usize i8 i32 isize".split(), thorough=True, timeout=600)
     + V("u_div i_div", "u16 u32 u64 i8 i16 i32 isize".split(), thorough=True, timeout=900),
     "big operands of 0..2 words (0..1 words for division), every value of the primitive type, both signs, every operand order and form; "
     "all 12 types for sums, differences and bitwise operators, a set of types for products and quotients (the rest in the thorough tier)",
     "longer big operands (the operators convert the primitive operand and call the big operator, which its own property covers)")

prop("C23", IS("b64", "h_neg_abs h_signed h_abs_sub h_zero_one h_nt_pow h_nt_parse", cost=5),
     "numbers of 0..3 words, both signs, all word values (positive difference: 0..2 words each); trait powers: one-word bases, exponents 0..3; "
     "trait parsing: all 3-byte strings in radix 2, 10 and 16", "longer numbers")

prop("C24", IS("b64", "h_is_pow2", cost=20) + IS("b64", "h_bit h_bit_sym h_set_bit h_clear_bit h_clear_bit_huge h_trailing_zeros h_bit_len "
     "h_next_pow2 h_next_pow2_spare h_set_clear"),
     "numbers of 0..3 words (0..4 for bit length, trailing zeros and the power-of-two test), all word values; bit tests at every position; bit updates at "
     "positions around word boundaries up to 5 words, and clearing at the largest positions", "longer numbers")

NOT_APPLICABLE = {
    "C18": "no separate check: every other check has each memory access, free and uninitialised read of the code it executes as an obligation, but scratch-memory "
           "sufficiency over all operand lengths is out of reach, because the recursive multiplications branch on data and exploring them with symbolic words "
           "at the lengths where scratch matters did not finish (12 to 49 words, lowered thresholds, 120 s per length group)",
    "C21": "no separate check: comparing whole builds of different word size over symbolic operands was not completed; individual checks (C10 to C13, C20) are decided on "
           "16-bit and some on 32- and 64-bit word builds against the same mathematical statement",
}
