KINDS = ["int8", "int16", "int32", "int64", "int100", "int128", "bool", "prime32", "prime64"]
NUM = ["int8", "int16", "int32", "int64", "int100", "int128", "prime32", "prime64"]
NAT = ["int8", "int16", "int32", "int64"]
WORD = NAT + ["int128"]
GENS = {
    "g_bin": NUM, "g_binint": NUM, "g_neg": NUM, "g_matmul": ["int32", "int64", "int100", "int128", "prime32", "prime64"],
    "g_sum": NUM, "g_cumsum": ["int32", "int64", "int100", "prime32", "prime64"], "g_equal": KINDS,
    "g_zero": [k for k in NUM if k != "int128"], "g_shape": KINDS, "g_bitwise": WORD + ["bool"], "g_shift": WORD,
    "g_trunc100": ["int100"], "g_bits": WORD + ["int100", "prime32", "prime64"], "g_conv": ["int32", "int64", "int100"],
    "g_var": KINDS, "g_where": WORD + ["bool"], "g_fill": WORD, "g_patches": ["int32", "int64", "int100", "int128"],
}
SAMPLE = KINDS
