mat_ops!(d,f64,1,1,"m_madd_11","m_msub_11","m_mdiv_11","m_mneg_11","m_mmul_11","m_mv_vv_11","m_mv_rr_11","m_mv_vr_11","m_mv_rv_11","m_mctor_11","m_outer_11","m_transp_11","m_midx_11","m_midxm_11","m_mrow_11","m_mrowm_11");
mat_ops!(d,f64,2,2,"m_madd_22","m_msub_22","m_mdiv_22","m_mneg_22","m_mmul_22","m_mv_vv_22","m_mv_rr_22","m_mv_vr_22","m_mv_rv_22","m_mctor_22","m_outer_22","m_transp_22","m_midx_22","m_midxm_22","m_mrow_22","m_mrowm_22");
mat_ops!(d,f64,2,3,"m_madd_23","m_msub_23","m_mdiv_23","m_mneg_23","m_mmul_23","m_mv_vv_23","m_mv_rr_23","m_mv_vr_23","m_mv_rv_23","m_mctor_23","m_outer_23","m_transp_23","m_midx_23","m_midxm_23","m_mrow_23","m_mrowm_23");
mat_ops!(d,f64,3,3,"m_madd_33","m_msub_33","m_mdiv_33","m_mneg_33","m_mmul_33","m_mv_vv_33","m_mv_rr_33","m_mv_vr_33","m_mv_rv_33","m_mctor_33","m_outer_33","m_transp_33","m_midx_33","m_midxm_33","m_mrow_33","m_mrowm_33");
mat_ops!(d,f64,4,4,"m_madd_44","m_msub_44","m_mdiv_44","m_mneg_44","m_mmul_44","m_mv_vv_44","m_mv_rr_44","m_mv_vr_44","m_mv_rv_44","m_mctor_44","m_outer_44","m_transp_44","m_midx_44","m_midxm_44","m_mrow_44","m_mrowm_44");
mat_ops!(d,f64,3,6,"m_madd_36","m_msub_36","m_mdiv_36","m_mneg_36","m_mmul_36","m_mv_vv_36","m_mv_rr_36","m_mv_vr_36","m_mv_rv_36","m_mctor_36","m_outer_36","m_transp_36","m_midx_36","m_midxm_36","m_mrow_36","m_mrowm_36");
mat_ops!(d,f64,5,2,"m_madd_52","m_msub_52","m_mdiv_52","m_mneg_52","m_mmul_52","m_mv_vv_52","m_mv_rr_52","m_mv_vr_52","m_mv_rv_52","m_mctor_52","m_outer_52","m_transp_52","m_midx_52","m_midxm_52","m_mrow_52","m_mrowm_52");
mat_ops!(s,f32,2,2,"m_madd_22f","m_msub_22f","m_mdiv_22f","m_mneg_22f","m_mmul_22f","m_mv_vv_22f","m_mv_rr_22f","m_mv_vr_22f","m_mv_rv_22f","m_mctor_22f","m_outer_22f","m_transp_22f","m_midx_22f","m_midxm_22f","m_mrow_22f","m_mrowm_22f");
mat_ops!(s,f32,3,3,"m_madd_33f","m_msub_33f","m_mdiv_33f","m_mneg_33f","m_mmul_33f","m_mv_vv_33f","m_mv_rr_33f","m_mv_vr_33f","m_mv_rv_33f","m_mctor_33f","m_outer_33f","m_transp_33f","m_midx_33f","m_midxm_33f","m_mrow_33f","m_mrowm_33f");
mat_ops!(s,f32,3,4,"m_madd_34f","m_msub_34f","m_mdiv_34f","m_mneg_34f","m_mmul_34f","m_mv_vv_34f","m_mv_rr_34f","m_mv_vr_34f","m_mv_rv_34f","m_mctor_34f","m_outer_34f","m_transp_34f","m_midx_34f","m_midxm_34f","m_mrow_34f","m_mrowm_34f");
mat_mul!(d,f64,1,1,1,"mm_vv_1_1_1","mm_rr_1_1_1","mm_vr_1_1_1","mm_rv_1_1_1");
mat_mul!(d,f64,2,2,2,"mm_vv_2_2_2","mm_rr_2_2_2","mm_vr_2_2_2","mm_rv_2_2_2");
mat_mul!(d,f64,3,3,3,"mm_vv_3_3_3","mm_rr_3_3_3","mm_vr_3_3_3","mm_rv_3_3_3");
mat_mul!(d,f64,2,3,4,"mm_vv_2_3_4","mm_rr_2_3_4","mm_vr_2_3_4","mm_rv_2_3_4");
mat_mul!(d,f64,4,4,4,"mm_vv_4_4_4","mm_rr_4_4_4","mm_vr_4_4_4","mm_rv_4_4_4");
mat_mul!(d,f64,3,1,3,"mm_vv_3_1_3","mm_rr_3_1_3","mm_vr_3_1_3","mm_rv_3_1_3");
mat_mul!(d,f64,1,3,1,"mm_vv_1_3_1","mm_rr_1_3_1","mm_vr_1_3_1","mm_rv_1_3_1");
mat_mul!(d,f64,6,6,6,"mm_vv_6_6_6","mm_rr_6_6_6","mm_vr_6_6_6","mm_rv_6_6_6");
mat_mul!(d,f64,2,9,3,"mm_vv_2_9_3","mm_rr_2_9_3","mm_vr_2_9_3","mm_rv_2_9_3");
mat_mul!(d,f64,9,2,2,"mm_vv_9_2_2","mm_rr_9_2_2","mm_vr_9_2_2","mm_rv_9_2_2");
mat_mul!(d,f64,2,17,18,"mm_vv_2_17_18","mm_rr_2_17_18","mm_vr_2_17_18","mm_rv_2_17_18");
mat_mul!(d,f64,3,3,9,"mm_vv_3_3_9","mm_rr_3_3_9","mm_vr_3_3_9","mm_rv_3_3_9");
mat_mul!(s,f32,2,2,2,"mm_vv_2_2_2f","mm_rr_2_2_2f","mm_vr_2_2_2f","mm_rv_2_2_2f");
mat_mul!(s,f32,3,3,3,"mm_vv_3_3_3f","mm_rr_3_3_3f","mm_vr_3_3_3f","mm_rv_3_3_3f");
mat_mul!(s,f32,4,2,3,"mm_vv_4_2_3f","mm_rr_4_2_3f","mm_vr_4_2_3f","mm_rv_4_2_3f");
mat_mul!(s,f32,1,20,1,"mm_vv_1_20_1f","mm_rr_1_20_1f","mm_vr_1_20_1f","mm_rv_1_20_1f");
square!(d,f64,1,"ident_1","diag_1","trace_1");
square!(d,f64,2,"ident_2","diag_2","trace_2");
square!(d,f64,3,"ident_3","diag_3","trace_3");
square!(d,f64,4,"ident_4","diag_4","trace_4");
square!(d,f64,6,"ident_6","diag_6","trace_6");
square!(s,f32,2,"ident_2f","diag_2f","trace_2f");
square!(s,f32,3,"ident_3f","diag_3f","trace_3f");
square!(s,f32,4,"ident_4f","diag_4f","trace_4f");
