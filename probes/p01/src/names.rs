vec_ops!(d,f64,1,f64::sqrt,"v_add_vv_1","v_add_rr_1","v_add_vr_1","v_add_rv_1","v_adda_v_1","v_adda_r_1","v_sub_vv_1","v_sub_rr_1","v_sub_vr_1","v_sub_rv_1","v_suba_v_1","v_suba_r_1","v_neg_v_1","v_neg_r_1","v_mul_v_1","v_mul_r_1","v_div_v_1","v_div_r_1","v_dot_1","v_dot_vv_1","v_dot_rr_1","v_dot_vr_1","v_dot_rv_1","v_norm_1","v_mag_1","v_normalize_1","v_tryn_1","v_rad_1","v_deg_1","v_shape_1","v_iter_1","v_idx_1","v_idxm_1","v_collect_1","v_ctor_1");
vec_ops!(d,f64,2,f64::sqrt,"v_add_vv_2","v_add_rr_2","v_add_vr_2","v_add_rv_2","v_adda_v_2","v_adda_r_2","v_sub_vv_2","v_sub_rr_2","v_sub_vr_2","v_sub_rv_2","v_suba_v_2","v_suba_r_2","v_neg_v_2","v_neg_r_2","v_mul_v_2","v_mul_r_2","v_div_v_2","v_div_r_2","v_dot_2","v_dot_vv_2","v_dot_rr_2","v_dot_vr_2","v_dot_rv_2","v_norm_2","v_mag_2","v_normalize_2","v_tryn_2","v_rad_2","v_deg_2","v_shape_2","v_iter_2","v_idx_2","v_idxm_2","v_collect_2","v_ctor_2");
vec_ops!(d,f64,3,f64::sqrt,"v_add_vv_3","v_add_rr_3","v_add_vr_3","v_add_rv_3","v_adda_v_3","v_adda_r_3","v_sub_vv_3","v_sub_rr_3","v_sub_vr_3","v_sub_rv_3","v_suba_v_3","v_suba_r_3","v_neg_v_3","v_neg_r_3","v_mul_v_3","v_mul_r_3","v_div_v_3","v_div_r_3","v_dot_3","v_dot_vv_3","v_dot_rr_3","v_dot_vr_3","v_dot_rv_3","v_norm_3","v_mag_3","v_normalize_3","v_tryn_3","v_rad_3","v_deg_3","v_shape_3","v_iter_3","v_idx_3","v_idxm_3","v_collect_3","v_ctor_3");
vec_ops!(d,f64,4,f64::sqrt,"v_add_vv_4","v_add_rr_4","v_add_vr_4","v_add_rv_4","v_adda_v_4","v_adda_r_4","v_sub_vv_4","v_sub_rr_4","v_sub_vr_4","v_sub_rv_4","v_suba_v_4","v_suba_r_4","v_neg_v_4","v_neg_r_4","v_mul_v_4","v_mul_r_4","v_div_v_4","v_div_r_4","v_dot_4","v_dot_vv_4","v_dot_rr_4","v_dot_vr_4","v_dot_rv_4","v_norm_4","v_mag_4","v_normalize_4","v_tryn_4","v_rad_4","v_deg_4","v_shape_4","v_iter_4","v_idx_4","v_idxm_4","v_collect_4","v_ctor_4");
vec_ops!(d,f64,6,f64::sqrt,"v_add_vv_6","v_add_rr_6","v_add_vr_6","v_add_rv_6","v_adda_v_6","v_adda_r_6","v_sub_vv_6","v_sub_rr_6","v_sub_vr_6","v_sub_rv_6","v_suba_v_6","v_suba_r_6","v_neg_v_6","v_neg_r_6","v_mul_v_6","v_mul_r_6","v_div_v_6","v_div_r_6","v_dot_6","v_dot_vv_6","v_dot_rr_6","v_dot_vr_6","v_dot_rv_6","v_norm_6","v_mag_6","v_normalize_6","v_tryn_6","v_rad_6","v_deg_6","v_shape_6","v_iter_6","v_idx_6","v_idxm_6","v_collect_6","v_ctor_6");
vec_ops!(d,f64,7,f64::sqrt,"v_add_vv_7","v_add_rr_7","v_add_vr_7","v_add_rv_7","v_adda_v_7","v_adda_r_7","v_sub_vv_7","v_sub_rr_7","v_sub_vr_7","v_sub_rv_7","v_suba_v_7","v_suba_r_7","v_neg_v_7","v_neg_r_7","v_mul_v_7","v_mul_r_7","v_div_v_7","v_div_r_7","v_dot_7","v_dot_vv_7","v_dot_rr_7","v_dot_vr_7","v_dot_rv_7","v_norm_7","v_mag_7","v_normalize_7","v_tryn_7","v_rad_7","v_deg_7","v_shape_7","v_iter_7","v_idx_7","v_idxm_7","v_collect_7","v_ctor_7");
vec_ops!(s,f32,2,f32::sqrt,"v_add_vv_2f","v_add_rr_2f","v_add_vr_2f","v_add_rv_2f","v_adda_v_2f","v_adda_r_2f","v_sub_vv_2f","v_sub_rr_2f","v_sub_vr_2f","v_sub_rv_2f","v_suba_v_2f","v_suba_r_2f","v_neg_v_2f","v_neg_r_2f","v_mul_v_2f","v_mul_r_2f","v_div_v_2f","v_div_r_2f","v_dot_2f","v_dot_vv_2f","v_dot_rr_2f","v_dot_vr_2f","v_dot_rv_2f","v_norm_2f","v_mag_2f","v_normalize_2f","v_tryn_2f","v_rad_2f","v_deg_2f","v_shape_2f","v_iter_2f","v_idx_2f","v_idxm_2f","v_collect_2f","v_ctor_2f");
vec_ops!(s,f32,3,f32::sqrt,"v_add_vv_3f","v_add_rr_3f","v_add_vr_3f","v_add_rv_3f","v_adda_v_3f","v_adda_r_3f","v_sub_vv_3f","v_sub_rr_3f","v_sub_vr_3f","v_sub_rv_3f","v_suba_v_3f","v_suba_r_3f","v_neg_v_3f","v_neg_r_3f","v_mul_v_3f","v_mul_r_3f","v_div_v_3f","v_div_r_3f","v_dot_3f","v_dot_vv_3f","v_dot_rr_3f","v_dot_vr_3f","v_dot_rv_3f","v_norm_3f","v_mag_3f","v_normalize_3f","v_tryn_3f","v_rad_3f","v_deg_3f","v_shape_3f","v_iter_3f","v_idx_3f","v_idxm_3f","v_collect_3f","v_ctor_3f");
vec_ops!(s,f32,4,f32::sqrt,"v_add_vv_4f","v_add_rr_4f","v_add_vr_4f","v_add_rv_4f","v_adda_v_4f","v_adda_r_4f","v_sub_vv_4f","v_sub_rr_4f","v_sub_vr_4f","v_sub_rv_4f","v_suba_v_4f","v_suba_r_4f","v_neg_v_4f","v_neg_r_4f","v_mul_v_4f","v_mul_r_4f","v_div_v_4f","v_div_r_4f","v_dot_4f","v_dot_vv_4f","v_dot_rr_4f","v_dot_vr_4f","v_dot_rv_4f","v_norm_4f","v_mag_4f","v_normalize_4f","v_tryn_4f","v_rad_4f","v_deg_4f","v_shape_4f","v_iter_4f","v_idx_4f","v_idxm_4f","v_collect_4f","v_ctor_4f");
vec_ops!(s,f32,5,f32::sqrt,"v_add_vv_5f","v_add_rr_5f","v_add_vr_5f","v_add_rv_5f","v_adda_v_5f","v_adda_r_5f","v_sub_vv_5f","v_sub_rr_5f","v_sub_vr_5f","v_sub_rv_5f","v_suba_v_5f","v_suba_r_5f","v_neg_v_5f","v_neg_r_5f","v_mul_v_5f","v_mul_r_5f","v_div_v_5f","v_div_r_5f","v_dot_5f","v_dot_vv_5f","v_dot_rr_5f","v_dot_vr_5f","v_dot_rv_5f","v_norm_5f","v_mag_5f","v_normalize_5f","v_tryn_5f","v_rad_5f","v_deg_5f","v_shape_5f","v_iter_5f","v_idx_5f","v_idxm_5f","v_collect_5f","v_ctor_5f");
