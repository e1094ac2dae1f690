#!/bin/bash
# build_sanitized.sh OUTDIR: builds the four native modules of /repo's working tree with
# AddressSanitizer and UndefinedBehaviorSanitizer, with the project's own Makefile rules.
# Signed overflow and left shifts of negative numbers are left out: the ring arithmetic wraps by design.
out=$1; mkdir -p "$out" || exit 1
. /opt/vp/env.sh
cd /repo || exit 1
mapfile -t tf < <(python -c 'import tensorflow as tf
print(tf.__version__)
print(*tf.sysconfig.get_compile_flags())
print(*tf.sysconfig.get_link_flags())' 2>/dev/null)
S="-fsanitize=address,undefined -fno-sanitize=signed-integer-overflow,shift-base,vptr -fno-sanitize-recover=all -g1 -fno-omit-frame-pointer -w"
make -k -j4 secure_random aux int128 dataset CURRENT_TF_VERSION="${tf[0]}" \
  SECURE_OUT_PRE="$out/secure_random_module_tf_" AUX_OUT_PRE="$out/aux_module_tf_" \
  I128_OUT_PRE="$out/tf_i128_module_tf_" DATASET_OUT_PRE="$out/tf_dataset_module_tf_" \
  TF_CFLAGS="-I/opt/vp/compat/include ${tf[1]} $S" TF_LFLAGS="${tf[2]}" \
  LIBSODIUM_INSTALL=/usr LIBSODIUM_OUT=/usr/lib/x86_64-linux-gnu/libsodium.a
