only!("C02","g_vec4_f64_1","guard",(a:&[[f64;4];1],b:&[f64;4],o:&mut [f64;1]),{*o=Matrix::new(*a).mul_vec4_simd(&Vector::new(*b)).data;});
only!("C02","g_vec4_f64_3","guard",(a:&[[f64;4];3],b:&[f64;4],o:&mut [f64;3]),{*o=Matrix::new(*a).mul_vec4_simd(&Vector::new(*b)).data;});
only!("C02","g_vec4_f64_4","guard",(a:&[[f64;4];4],b:&[f64;4],o:&mut [f64;4]),{*o=Matrix::new(*a).mul_vec4_simd(&Vector::new(*b)).data;});
only!("C02","g_vec6_f64_1","guard",(a:&[[f64;6];1],b:&[f64;6],o:&mut [f64;1]),{*o=Matrix::new(*a).mul_vec6_simd(&Vector::new(*b)).data;});
only!("C02","g_vec6_f64_3","guard",(a:&[[f64;6];3],b:&[f64;6],o:&mut [f64;3]),{*o=Matrix::new(*a).mul_vec6_simd(&Vector::new(*b)).data;});
only!("C02","g_vec6_f64_6","guard",(a:&[[f64;6];6],b:&[f64;6],o:&mut [f64;6]),{*o=Matrix::new(*a).mul_vec6_simd(&Vector::new(*b)).data;});
only!("C02","g_mat_f64_2_2_2","guard",(a:&[[f64;2];2],b:&[[f64;2];2],o:&mut [[f64;2];2]),{*o=Matrix::new(*a).mul_matrix_simd(&Matrix::new(*b)).data;});
only!("C02","g_mat_f64_4_4_4","guard",(a:&[[f64;4];4],b:&[[f64;4];4],o:&mut [[f64;4];4]),{*o=Matrix::new(*a).mul_matrix_simd(&Matrix::new(*b)).data;});
only!("C02","g_mat_f64_2_3_5","guard",(a:&[[f64;3];2],b:&[[f64;5];3],o:&mut [[f64;5];2]),{*o=Matrix::new(*a).mul_matrix_simd(&Matrix::new(*b)).data;});
only!("C02","g_mat_f64_1_2_9","guard",(a:&[[f64;2];1],b:&[[f64;9];2],o:&mut [[f64;9];1]),{*o=Matrix::new(*a).mul_matrix_simd(&Matrix::new(*b)).data;});
only!("C02","g_mat3_f64","guard",(a:&[[f64;3];3],b:&[[f64;3];3],o:&mut [[f64;3];3]),{*o=Matrix::new(*a).mul_mat3_simd(&Matrix::new(*b)).data;});
only!("C02","g_mat4_f64","guard",(a:&[[f64;4];4],b:&[[f64;4];4],o:&mut [[f64;4];4]),{*o=Matrix::new(*a).mul_mat4_simd(&Matrix::new(*b)).data;});
only!("C02","g_mat6_f64","guard",(a:&[[f64;6];6],b:&[[f64;6];6],o:&mut [[f64;6];6]),{*o=Matrix::new(*a).mul_mat6_simd(&Matrix::new(*b)).data;});
only!("C02","g_dot4_f64","guard",(a:&[f64;4],b:&[f64;4])->f64,{Vector::new(*a).dot4_simd(&Vector::new(*b))});
only!("C02","g_vec4_f32_1","guard",(a:&[[f32;4];1],b:&[f32;4],o:&mut [f32;1]),{*o=Matrix::new(*a).mul_vec4_simd(&Vector::new(*b)).data;});
only!("C02","g_vec4_f32_3","guard",(a:&[[f32;4];3],b:&[f32;4],o:&mut [f32;3]),{*o=Matrix::new(*a).mul_vec4_simd(&Vector::new(*b)).data;});
only!("C02","g_vec4_f32_4","guard",(a:&[[f32;4];4],b:&[f32;4],o:&mut [f32;4]),{*o=Matrix::new(*a).mul_vec4_simd(&Vector::new(*b)).data;});
only!("C02","g_vec6_f32_1","guard",(a:&[[f32;6];1],b:&[f32;6],o:&mut [f32;1]),{*o=Matrix::new(*a).mul_vec6_simd(&Vector::new(*b)).data;});
only!("C02","g_vec6_f32_3","guard",(a:&[[f32;6];3],b:&[f32;6],o:&mut [f32;3]),{*o=Matrix::new(*a).mul_vec6_simd(&Vector::new(*b)).data;});
only!("C02","g_vec6_f32_6","guard",(a:&[[f32;6];6],b:&[f32;6],o:&mut [f32;6]),{*o=Matrix::new(*a).mul_vec6_simd(&Vector::new(*b)).data;});
only!("C02","g_mat_f32_2_2_2","guard",(a:&[[f32;2];2],b:&[[f32;2];2],o:&mut [[f32;2];2]),{*o=Matrix::new(*a).mul_matrix_simd(&Matrix::new(*b)).data;});
only!("C02","g_mat_f32_4_4_4","guard",(a:&[[f32;4];4],b:&[[f32;4];4],o:&mut [[f32;4];4]),{*o=Matrix::new(*a).mul_matrix_simd(&Matrix::new(*b)).data;});
only!("C02","g_mat_f32_2_3_5","guard",(a:&[[f32;3];2],b:&[[f32;5];3],o:&mut [[f32;5];2]),{*o=Matrix::new(*a).mul_matrix_simd(&Matrix::new(*b)).data;});
only!("C02","g_mat_f32_1_2_9","guard",(a:&[[f32;2];1],b:&[[f32;9];2],o:&mut [[f32;9];1]),{*o=Matrix::new(*a).mul_matrix_simd(&Matrix::new(*b)).data;});
only!("C02","g_mat3_f32","guard",(a:&[[f32;3];3],b:&[[f32;3];3],o:&mut [[f32;3];3]),{*o=Matrix::new(*a).mul_mat3_simd(&Matrix::new(*b)).data;});
only!("C02","g_mat4_f32","guard",(a:&[[f32;4];4],b:&[[f32;4];4],o:&mut [[f32;4];4]),{*o=Matrix::new(*a).mul_mat4_simd(&Matrix::new(*b)).data;});
only!("C02","g_mat6_f32","guard",(a:&[[f32;6];6],b:&[[f32;6];6],o:&mut [[f32;6];6]),{*o=Matrix::new(*a).mul_mat6_simd(&Matrix::new(*b)).data;});
only!("C02","g_dot4_f32","guard",(a:&[f32;4],b:&[f32;4])->f32,{Vector::new(*a).dot4_simd(&Vector::new(*b))});
