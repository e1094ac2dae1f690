NAMES = ["k_bin", "k_neg", "k_abs", "k_rev", "k_xori", "k_shift", "k_equal", "k_matmul", "k_rsum", "k_to", "k_from", "k_gather", "k_split", "k_aux"]
