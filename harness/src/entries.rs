// generated by vlib/build.py: every h_* entry point
static ENTRIES: &[(&str, extern "C" fn())] = &[
    ("h_bs", hx::big::h_bs),
    ("h_bg", hx::big::h_bg),
    ("h_b02", hx::big::h_b02),
    ("h_bd", hx::big::h_bd),
    ("h_b06", hx::big::h_b06),
    ("h_b11", hx::big::h_b11),
    ("h_b04", hx::big::h_b04),
    ("h_b05", hx::big::h_b05),
    ("h_bm", hx::big::h_bm),
    ("h_bc", hx::big::h_bc),
    ("h_a01", hx::capi::h_a01),
    ("h_a01b", hx::capi::h_a01b),
    ("h_a01n", hx::capi::h_a01n),
    ("h_a01l", hx::capi::h_a01l),
    ("h_a01m", hx::capi::h_a01m),
    ("h_c01", hx::conc::h_c01),
    ("h_c02", hx::conc::h_c02),
    ("h_c04", hx::conc::h_c04),
    ("h_c05", hx::conc::h_c05),
    ("h_c03", hx::conc::h_c03),
    ("h_g01", hx::graph::h_g01),
    ("h_g02", hx::graph::h_g02),
    ("h_r01", hx::graph::h_r01),
    ("h_l01", hx::graph::h_l01),
    ("h_p01", hx::graph::h_p01),
    ("h_d01", hx::io::h_d01),
    ("h_d02", hx::io::h_d02),
    ("h_d03", hx::io::h_d03),
    ("h_d03h", hx::io::h_d03h),
    ("h_d03w", hx::io::h_d03w),
    ("h_d03d", hx::io::h_d03d),
    ("h_d04", hx::io::h_d04),
    ("h_d04t", hx::io::h_d04t),
    ("h_d05", hx::io::h_d05),
    ("h_d06", hx::io::h_d06),
    ("h_d08", hx::io::h_d08),
    ("h_d07", hx::io::h_d07),
    ("h_d07b", hx::io::h_d07b),
    ("h_d09", hx::io::h_d09),
    ("h_d09g", hx::io::h_d09g),
    ("h_d09b", hx::io::h_d09b),
    ("h_d10", hx::io::h_d10),
    ("h_d11", hx::io::h_d11),
    ("h_d13", hx::io::h_d13),
    ("h_d12", hx::io::h_d12),
    ("h_d14", hx::io::h_d14),
    ("h_d11o", hx::io::h_d11o),
    ("h_o01", hx::misc::h_o01),
    ("h_o01n", hx::misc::h_o01n),
    ("h_o01s", hx::misc::h_o01s),
    ("h_o01q", hx::misc::h_o01q),
    ("h_i01", hx::misc::h_i01),
    ("h_i01c", hx::misc::h_i01c),
    ("h_f01", hx::misc::h_f01),
    ("h_m01", hx::misc::h_m01),
    ("h_s01", hx::search::h_s01),
    ("h_s01q", hx::search::h_s01q),
    ("h_s02", hx::search::h_s02),
    ("h_s03", hx::search::h_s03),
];
