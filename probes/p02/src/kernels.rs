ob!("C02","k_mul_vec6_avx_fma_f64_1",(a:&[[f64;6];1],b:&[f64;6],o:&mut [f64;1]),{*o=unsafe{ms::mul_vec6_avx_fma_f64(&Matrix::new(*a),&Vector::new(*b))}.data;}=={*o=mv(a,b);});
ob!("C02","k_mul_vec6_avx_fma_f64_3",(a:&[[f64;6];3],b:&[f64;6],o:&mut [f64;3]),{*o=unsafe{ms::mul_vec6_avx_fma_f64(&Matrix::new(*a),&Vector::new(*b))}.data;}=={*o=mv(a,b);});
ob!("C02","k_mul_vec6_avx_fma_f64_6",(a:&[[f64;6];6],b:&[f64;6],o:&mut [f64;6]),{*o=unsafe{ms::mul_vec6_avx_fma_f64(&Matrix::new(*a),&Vector::new(*b))}.data;}=={*o=mv(a,b);});
ob!("C02","k_mul_vec6_avx_f64_1",(a:&[[f64;6];1],b:&[f64;6],o:&mut [f64;1]),{*o=unsafe{ms::mul_vec6_avx_f64(&Matrix::new(*a),&Vector::new(*b))}.data;}=={*o=mv(a,b);});
ob!("C02","k_mul_vec6_avx_f64_3",(a:&[[f64;6];3],b:&[f64;6],o:&mut [f64;3]),{*o=unsafe{ms::mul_vec6_avx_f64(&Matrix::new(*a),&Vector::new(*b))}.data;}=={*o=mv(a,b);});
ob!("C02","k_mul_vec6_avx_f64_6",(a:&[[f64;6];6],b:&[f64;6],o:&mut [f64;6]),{*o=unsafe{ms::mul_vec6_avx_f64(&Matrix::new(*a),&Vector::new(*b))}.data;}=={*o=mv(a,b);});
ob!("C02","k_mul_vec6_fma128_f64_1",(a:&[[f64;6];1],b:&[f64;6],o:&mut [f64;1]),{*o=unsafe{ms::mul_vec6_fma128_f64(&Matrix::new(*a),&Vector::new(*b))}.data;}=={*o=mv(a,b);});
ob!("C02","k_mul_vec6_fma128_f64_3",(a:&[[f64;6];3],b:&[f64;6],o:&mut [f64;3]),{*o=unsafe{ms::mul_vec6_fma128_f64(&Matrix::new(*a),&Vector::new(*b))}.data;}=={*o=mv(a,b);});
ob!("C02","k_mul_vec6_fma128_f64_6",(a:&[[f64;6];6],b:&[f64;6],o:&mut [f64;6]),{*o=unsafe{ms::mul_vec6_fma128_f64(&Matrix::new(*a),&Vector::new(*b))}.data;}=={*o=mv(a,b);});
ob!("C02","k_mul_vec6_sse2_f64_1",(a:&[[f64;6];1],b:&[f64;6],o:&mut [f64;1]),{*o=unsafe{ms::mul_vec6_sse2_f64(&Matrix::new(*a),&Vector::new(*b))}.data;}=={*o=mv(a,b);});
ob!("C02","k_mul_vec6_sse2_f64_3",(a:&[[f64;6];3],b:&[f64;6],o:&mut [f64;3]),{*o=unsafe{ms::mul_vec6_sse2_f64(&Matrix::new(*a),&Vector::new(*b))}.data;}=={*o=mv(a,b);});
ob!("C02","k_mul_vec6_sse2_f64_6",(a:&[[f64;6];6],b:&[f64;6],o:&mut [f64;6]),{*o=unsafe{ms::mul_vec6_sse2_f64(&Matrix::new(*a),&Vector::new(*b))}.data;}=={*o=mv(a,b);});
ob!("C02","k_mul_vec4_avx_fma_f64_1",(a:&[[f64;4];1],b:&[f64;4],o:&mut [f64;1]),{*o=unsafe{ms::mul_vec4_avx_fma_f64(&Matrix::new(*a),&Vector::new(*b))}.data;}=={*o=mv(a,b);});
ob!("C02","k_mul_vec4_avx_fma_f64_3",(a:&[[f64;4];3],b:&[f64;4],o:&mut [f64;3]),{*o=unsafe{ms::mul_vec4_avx_fma_f64(&Matrix::new(*a),&Vector::new(*b))}.data;}=={*o=mv(a,b);});
ob!("C02","k_mul_vec4_avx_fma_f64_4",(a:&[[f64;4];4],b:&[f64;4],o:&mut [f64;4]),{*o=unsafe{ms::mul_vec4_avx_fma_f64(&Matrix::new(*a),&Vector::new(*b))}.data;}=={*o=mv(a,b);});
ob!("C02","k_mul_vec4_avx_f64_1",(a:&[[f64;4];1],b:&[f64;4],o:&mut [f64;1]),{*o=unsafe{ms::mul_vec4_avx_f64(&Matrix::new(*a),&Vector::new(*b))}.data;}=={*o=mv(a,b);});
ob!("C02","k_mul_vec4_avx_f64_3",(a:&[[f64;4];3],b:&[f64;4],o:&mut [f64;3]),{*o=unsafe{ms::mul_vec4_avx_f64(&Matrix::new(*a),&Vector::new(*b))}.data;}=={*o=mv(a,b);});
ob!("C02","k_mul_vec4_avx_f64_4",(a:&[[f64;4];4],b:&[f64;4],o:&mut [f64;4]),{*o=unsafe{ms::mul_vec4_avx_f64(&Matrix::new(*a),&Vector::new(*b))}.data;}=={*o=mv(a,b);});
ob!("C02","k_mul_vec6_avx_fma_f32_1",(a:&[[f32;6];1],b:&[f32;6],o:&mut [f32;1]),{*o=unsafe{ms::mul_vec6_avx_fma_f32(&Matrix::new(*a),&Vector::new(*b))}.data;}=={*o=mv(a,b);});
ob!("C02","k_mul_vec6_avx_fma_f32_3",(a:&[[f32;6];3],b:&[f32;6],o:&mut [f32;3]),{*o=unsafe{ms::mul_vec6_avx_fma_f32(&Matrix::new(*a),&Vector::new(*b))}.data;}=={*o=mv(a,b);});
ob!("C02","k_mul_vec6_avx_fma_f32_6",(a:&[[f32;6];6],b:&[f32;6],o:&mut [f32;6]),{*o=unsafe{ms::mul_vec6_avx_fma_f32(&Matrix::new(*a),&Vector::new(*b))}.data;}=={*o=mv(a,b);});
ob!("C02","k_mul_vec6_avx_f32_1",(a:&[[f32;6];1],b:&[f32;6],o:&mut [f32;1]),{*o=unsafe{ms::mul_vec6_avx_f32(&Matrix::new(*a),&Vector::new(*b))}.data;}=={*o=mv(a,b);});
ob!("C02","k_mul_vec6_avx_f32_3",(a:&[[f32;6];3],b:&[f32;6],o:&mut [f32;3]),{*o=unsafe{ms::mul_vec6_avx_f32(&Matrix::new(*a),&Vector::new(*b))}.data;}=={*o=mv(a,b);});
ob!("C02","k_mul_vec6_avx_f32_6",(a:&[[f32;6];6],b:&[f32;6],o:&mut [f32;6]),{*o=unsafe{ms::mul_vec6_avx_f32(&Matrix::new(*a),&Vector::new(*b))}.data;}=={*o=mv(a,b);});
ob!("C02","k_mul_vec6_fma128_f32_1",(a:&[[f32;6];1],b:&[f32;6],o:&mut [f32;1]),{*o=unsafe{ms::mul_vec6_fma128_f32(&Matrix::new(*a),&Vector::new(*b))}.data;}=={*o=mv(a,b);});
ob!("C02","k_mul_vec6_fma128_f32_3",(a:&[[f32;6];3],b:&[f32;6],o:&mut [f32;3]),{*o=unsafe{ms::mul_vec6_fma128_f32(&Matrix::new(*a),&Vector::new(*b))}.data;}=={*o=mv(a,b);});
ob!("C02","k_mul_vec6_fma128_f32_6",(a:&[[f32;6];6],b:&[f32;6],o:&mut [f32;6]),{*o=unsafe{ms::mul_vec6_fma128_f32(&Matrix::new(*a),&Vector::new(*b))}.data;}=={*o=mv(a,b);});
ob!("C02","k_mul_vec6_sse_f32_1",(a:&[[f32;6];1],b:&[f32;6],o:&mut [f32;1]),{*o=unsafe{ms::mul_vec6_sse_f32(&Matrix::new(*a),&Vector::new(*b))}.data;}=={*o=mv(a,b);});
ob!("C02","k_mul_vec6_sse_f32_3",(a:&[[f32;6];3],b:&[f32;6],o:&mut [f32;3]),{*o=unsafe{ms::mul_vec6_sse_f32(&Matrix::new(*a),&Vector::new(*b))}.data;}=={*o=mv(a,b);});
ob!("C02","k_mul_vec6_sse_f32_6",(a:&[[f32;6];6],b:&[f32;6],o:&mut [f32;6]),{*o=unsafe{ms::mul_vec6_sse_f32(&Matrix::new(*a),&Vector::new(*b))}.data;}=={*o=mv(a,b);});
ob!("C02","k_mul_vec4_sse_fma_f32_1",(a:&[[f32;4];1],b:&[f32;4],o:&mut [f32;1]),{*o=unsafe{ms::mul_vec4_sse_fma_f32(&Matrix::new(*a),&Vector::new(*b))}.data;}=={*o=mv(a,b);});
ob!("C02","k_mul_vec4_sse_fma_f32_3",(a:&[[f32;4];3],b:&[f32;4],o:&mut [f32;3]),{*o=unsafe{ms::mul_vec4_sse_fma_f32(&Matrix::new(*a),&Vector::new(*b))}.data;}=={*o=mv(a,b);});
ob!("C02","k_mul_vec4_sse_fma_f32_4",(a:&[[f32;4];4],b:&[f32;4],o:&mut [f32;4]),{*o=unsafe{ms::mul_vec4_sse_fma_f32(&Matrix::new(*a),&Vector::new(*b))}.data;}=={*o=mv(a,b);});
ob!("C02","k_mul_vec4_sse_f32_1",(a:&[[f32;4];1],b:&[f32;4],o:&mut [f32;1]),{*o=unsafe{ms::mul_vec4_sse_f32(&Matrix::new(*a),&Vector::new(*b))}.data;}=={*o=mv(a,b);});
ob!("C02","k_mul_vec4_sse_f32_3",(a:&[[f32;4];3],b:&[f32;4],o:&mut [f32;3]),{*o=unsafe{ms::mul_vec4_sse_f32(&Matrix::new(*a),&Vector::new(*b))}.data;}=={*o=mv(a,b);});
ob!("C02","k_mul_vec4_sse_f32_4",(a:&[[f32;4];4],b:&[f32;4],o:&mut [f32;4]),{*o=unsafe{ms::mul_vec4_sse_f32(&Matrix::new(*a),&Vector::new(*b))}.data;}=={*o=mv(a,b);});
ob!("C02","k_mul_matrix_avx_f64_2_2_2",(a:&[[f64;2];2],b:&[[f64;2];2],o:&mut [[f64;2];2]),{*o=unsafe{ms::mul_matrix_avx_f64(&Matrix::new(*a),&Matrix::new(*b))}.data;}=={*o=mm(a,b);});
ob!("C02","k_mul_matrix_avx_f64_3_3_3",(a:&[[f64;3];3],b:&[[f64;3];3],o:&mut [[f64;3];3]),{*o=unsafe{ms::mul_matrix_avx_f64(&Matrix::new(*a),&Matrix::new(*b))}.data;}=={*o=mm(a,b);});
ob!("C02","k_mul_matrix_avx_f64_4_4_4",(a:&[[f64;4];4],b:&[[f64;4];4],o:&mut [[f64;4];4]),{*o=unsafe{ms::mul_matrix_avx_f64(&Matrix::new(*a),&Matrix::new(*b))}.data;}=={*o=mm(a,b);});
ob!("C02","k_mul_matrix_avx_f64_2_3_5",(a:&[[f64;3];2],b:&[[f64;5];3],o:&mut [[f64;5];2]),{*o=unsafe{ms::mul_matrix_avx_f64(&Matrix::new(*a),&Matrix::new(*b))}.data;}=={*o=mm(a,b);});
ob!("C02","k_mul_matrix_avx_f64_3_2_8",(a:&[[f64;2];3],b:&[[f64;8];2],o:&mut [[f64;8];3]),{*o=unsafe{ms::mul_matrix_avx_f64(&Matrix::new(*a),&Matrix::new(*b))}.data;}=={*o=mm(a,b);});
ob!("C02","k_mul_matrix_avx_f64_1_4_9",(a:&[[f64;4];1],b:&[[f64;9];4],o:&mut [[f64;9];1]),{*o=unsafe{ms::mul_matrix_avx_f64(&Matrix::new(*a),&Matrix::new(*b))}.data;}=={*o=mm(a,b);});
ob!("C02","k_mul_matrix_avx_f64_6_6_6",(a:&[[f64;6];6],b:&[[f64;6];6],o:&mut [[f64;6];6]),{*o=unsafe{ms::mul_matrix_avx_f64(&Matrix::new(*a),&Matrix::new(*b))}.data;}=={*o=mm(a,b);});
ob!("C02","k_mul_matrix_avx_f64_2_2_17",(a:&[[f64;2];2],b:&[[f64;17];2],o:&mut [[f64;17];2]),{*o=unsafe{ms::mul_matrix_avx_f64(&Matrix::new(*a),&Matrix::new(*b))}.data;}=={*o=mm(a,b);});
ob!("C02","k_mul_matrix_avx_fma_f64_2_2_2",(a:&[[f64;2];2],b:&[[f64;2];2],o:&mut [[f64;2];2]),{*o=unsafe{ms::mul_matrix_avx_fma_f64(&Matrix::new(*a),&Matrix::new(*b))}.data;}=={*o=mm(a,b);});
ob!("C02","k_mul_matrix_avx_fma_f64_3_3_3",(a:&[[f64;3];3],b:&[[f64;3];3],o:&mut [[f64;3];3]),{*o=unsafe{ms::mul_matrix_avx_fma_f64(&Matrix::new(*a),&Matrix::new(*b))}.data;}=={*o=mm(a,b);});
ob!("C02","k_mul_matrix_avx_fma_f64_4_4_4",(a:&[[f64;4];4],b:&[[f64;4];4],o:&mut [[f64;4];4]),{*o=unsafe{ms::mul_matrix_avx_fma_f64(&Matrix::new(*a),&Matrix::new(*b))}.data;}=={*o=mm(a,b);});
ob!("C02","k_mul_matrix_avx_fma_f64_2_3_5",(a:&[[f64;3];2],b:&[[f64;5];3],o:&mut [[f64;5];2]),{*o=unsafe{ms::mul_matrix_avx_fma_f64(&Matrix::new(*a),&Matrix::new(*b))}.data;}=={*o=mm(a,b);});
ob!("C02","k_mul_matrix_avx_fma_f64_3_2_8",(a:&[[f64;2];3],b:&[[f64;8];2],o:&mut [[f64;8];3]),{*o=unsafe{ms::mul_matrix_avx_fma_f64(&Matrix::new(*a),&Matrix::new(*b))}.data;}=={*o=mm(a,b);});
ob!("C02","k_mul_matrix_avx_fma_f64_1_4_9",(a:&[[f64;4];1],b:&[[f64;9];4],o:&mut [[f64;9];1]),{*o=unsafe{ms::mul_matrix_avx_fma_f64(&Matrix::new(*a),&Matrix::new(*b))}.data;}=={*o=mm(a,b);});
ob!("C02","k_mul_matrix_avx_fma_f64_6_6_6",(a:&[[f64;6];6],b:&[[f64;6];6],o:&mut [[f64;6];6]),{*o=unsafe{ms::mul_matrix_avx_fma_f64(&Matrix::new(*a),&Matrix::new(*b))}.data;}=={*o=mm(a,b);});
ob!("C02","k_mul_matrix_avx_fma_f64_2_2_17",(a:&[[f64;2];2],b:&[[f64;17];2],o:&mut [[f64;17];2]),{*o=unsafe{ms::mul_matrix_avx_fma_f64(&Matrix::new(*a),&Matrix::new(*b))}.data;}=={*o=mm(a,b);});
ob!("C02","k_mul_matrix_avx_f32_2_2_2",(a:&[[f32;2];2],b:&[[f32;2];2],o:&mut [[f32;2];2]),{*o=unsafe{ms::mul_matrix_avx_f32(&Matrix::new(*a),&Matrix::new(*b))}.data;}=={*o=mm(a,b);});
ob!("C02","k_mul_matrix_avx_f32_3_3_3",(a:&[[f32;3];3],b:&[[f32;3];3],o:&mut [[f32;3];3]),{*o=unsafe{ms::mul_matrix_avx_f32(&Matrix::new(*a),&Matrix::new(*b))}.data;}=={*o=mm(a,b);});
ob!("C02","k_mul_matrix_avx_f32_4_4_4",(a:&[[f32;4];4],b:&[[f32;4];4],o:&mut [[f32;4];4]),{*o=unsafe{ms::mul_matrix_avx_f32(&Matrix::new(*a),&Matrix::new(*b))}.data;}=={*o=mm(a,b);});
ob!("C02","k_mul_matrix_avx_f32_2_3_5",(a:&[[f32;3];2],b:&[[f32;5];3],o:&mut [[f32;5];2]),{*o=unsafe{ms::mul_matrix_avx_f32(&Matrix::new(*a),&Matrix::new(*b))}.data;}=={*o=mm(a,b);});
ob!("C02","k_mul_matrix_avx_f32_3_2_8",(a:&[[f32;2];3],b:&[[f32;8];2],o:&mut [[f32;8];3]),{*o=unsafe{ms::mul_matrix_avx_f32(&Matrix::new(*a),&Matrix::new(*b))}.data;}=={*o=mm(a,b);});
ob!("C02","k_mul_matrix_avx_f32_1_4_9",(a:&[[f32;4];1],b:&[[f32;9];4],o:&mut [[f32;9];1]),{*o=unsafe{ms::mul_matrix_avx_f32(&Matrix::new(*a),&Matrix::new(*b))}.data;}=={*o=mm(a,b);});
ob!("C02","k_mul_matrix_avx_f32_6_6_6",(a:&[[f32;6];6],b:&[[f32;6];6],o:&mut [[f32;6];6]),{*o=unsafe{ms::mul_matrix_avx_f32(&Matrix::new(*a),&Matrix::new(*b))}.data;}=={*o=mm(a,b);});
ob!("C02","k_mul_matrix_avx_f32_2_2_17",(a:&[[f32;2];2],b:&[[f32;17];2],o:&mut [[f32;17];2]),{*o=unsafe{ms::mul_matrix_avx_f32(&Matrix::new(*a),&Matrix::new(*b))}.data;}=={*o=mm(a,b);});
ob!("C02","k_mul_matrix_avx_fma_f32_2_2_2",(a:&[[f32;2];2],b:&[[f32;2];2],o:&mut [[f32;2];2]),{*o=unsafe{ms::mul_matrix_avx_fma_f32(&Matrix::new(*a),&Matrix::new(*b))}.data;}=={*o=mm(a,b);});
ob!("C02","k_mul_matrix_avx_fma_f32_3_3_3",(a:&[[f32;3];3],b:&[[f32;3];3],o:&mut [[f32;3];3]),{*o=unsafe{ms::mul_matrix_avx_fma_f32(&Matrix::new(*a),&Matrix::new(*b))}.data;}=={*o=mm(a,b);});
ob!("C02","k_mul_matrix_avx_fma_f32_4_4_4",(a:&[[f32;4];4],b:&[[f32;4];4],o:&mut [[f32;4];4]),{*o=unsafe{ms::mul_matrix_avx_fma_f32(&Matrix::new(*a),&Matrix::new(*b))}.data;}=={*o=mm(a,b);});
ob!("C02","k_mul_matrix_avx_fma_f32_2_3_5",(a:&[[f32;3];2],b:&[[f32;5];3],o:&mut [[f32;5];2]),{*o=unsafe{ms::mul_matrix_avx_fma_f32(&Matrix::new(*a),&Matrix::new(*b))}.data;}=={*o=mm(a,b);});
ob!("C02","k_mul_matrix_avx_fma_f32_3_2_8",(a:&[[f32;2];3],b:&[[f32;8];2],o:&mut [[f32;8];3]),{*o=unsafe{ms::mul_matrix_avx_fma_f32(&Matrix::new(*a),&Matrix::new(*b))}.data;}=={*o=mm(a,b);});
ob!("C02","k_mul_matrix_avx_fma_f32_1_4_9",(a:&[[f32;4];1],b:&[[f32;9];4],o:&mut [[f32;9];1]),{*o=unsafe{ms::mul_matrix_avx_fma_f32(&Matrix::new(*a),&Matrix::new(*b))}.data;}=={*o=mm(a,b);});
ob!("C02","k_mul_matrix_avx_fma_f32_6_6_6",(a:&[[f32;6];6],b:&[[f32;6];6],o:&mut [[f32;6];6]),{*o=unsafe{ms::mul_matrix_avx_fma_f32(&Matrix::new(*a),&Matrix::new(*b))}.data;}=={*o=mm(a,b);});
ob!("C02","k_mul_matrix_avx_fma_f32_2_2_17",(a:&[[f32;2];2],b:&[[f32;17];2],o:&mut [[f32;17];2]),{*o=unsafe{ms::mul_matrix_avx_fma_f32(&Matrix::new(*a),&Matrix::new(*b))}.data;}=={*o=mm(a,b);});
ob!("C02","k_dot4_avx_fma_f64",(a:&[f64;4],b:&[f64;4])->f64,{unsafe{vs::dot4_avx_fma_f64(&Vector::new(*a),&Vector::new(*b))}}=={let mut s=0.0;for i in 0..4{s+=a[i]*b[i];}s});
ob!("C02","k_dot4_avx_f64",(a:&[f64;4],b:&[f64;4])->f64,{unsafe{vs::dot4_avx_f64(&Vector::new(*a),&Vector::new(*b))}}=={let mut s=0.0;for i in 0..4{s+=a[i]*b[i];}s});
ob!("C02","k_dot4_sse_fma_f32",(a:&[f32;4],b:&[f32;4])->f32,{unsafe{vs::dot4_sse_fma_f32(&Vector::new(*a),&Vector::new(*b))}}=={let mut s=0.0;for i in 0..4{s+=a[i]*b[i];}s});
ob!("C02","k_dot4_sse_f32",(a:&[f32;4],b:&[f32;4])->f32,{unsafe{vs::dot4_sse_f32(&Vector::new(*a),&Vector::new(*b))}}=={let mut s=0.0;for i in 0..4{s+=a[i]*b[i];}s});
