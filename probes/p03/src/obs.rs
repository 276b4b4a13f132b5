ob!("C03","det_f64_1",(a:&[[f64;1];1])->f64,{Matrix::new(*a).determinant()}=={match s64::eliminate(a,1e-12){Some(_)=>s64::det1(a),None=>0.0}});
ob!("C03","lu_accepts_f64_1",(a:&[[f64;1];1])->bool,{Matrix::new(*a).lu_decompose().is_some()}=={s64::eliminate(a,f64::EPSILON).is_some()});
ob!("C03","lu_factors_f64_1",(a:&[[f64;1];1])->Option<[[f64;1];1]>,{Matrix::new(*a).lu_decompose().map(|d|{let (mut l,mut u)=([[0.0;1];1],[[0.0;1];1]);for i in 0..1{l[i][i]=1.0;for j in 0..1{if j<i{l[i][j]=d.lu[(i,j)]}else{u[i][j]=d.lu[(i,j)]}}}let p=s64::mm(&l,&u);let mut o=[[0.0;1];1];for i in 0..1{o[d.piv[i]]=p[i];}o})}=={s64::eliminate(a,f64::EPSILON).map(|_|*a)});
ob!("C03","lu_upper_f64_1",(a:&[[f64;1];1])->Option<[[f64;1];1]>,{Matrix::new(*a).lu_decompose().map(|d|{let mut u=[[0.0;1];1];for i in 0..1{for j in i..1{u[i][j]=d.lu[(i,j)]}}u})}=={s64::eliminate(a,f64::EPSILON).map(|(u,_)|u)});
ob!("C03","lu_sign_f64_1",(a:&[[f64;1];1])->i8,{Matrix::new(*a).lu_decompose().map(|d|d.sign).unwrap_or(0)}=={match s64::eliminate(a,f64::EPSILON){Some((_,odd))=>if odd{-1}else{1},None=>0}});
ob!("C03","solve_f64_1",(a:&[[f64;1];1],b:&[f64;1])->Option<[f64;1]>,{Matrix::new(*a).solve(&Vector::new(*b)).map(|x|s64::mv(a,&x.data))}=={s64::eliminate(a,f64::EPSILON).map(|_|*b)});
ob!("C03","solve_multi_f64_1",(a:&[[f64;1];1],b:&[[f64;2];1])->Option<[[f64;2];1]>,{Matrix::new(*a).solve_multi(&Matrix::new(*b)).map(|x|s64::mm(a,&x.data))}=={s64::eliminate(a,f64::EPSILON).map(|_|*b)});
ob!("C03","gj_f64_1",(a:&[[f64;1];1])->Option<[[f64;1];1]>,{Matrix::new(*a).inverse_gauss_jordan().map(|x|s64::mm(a,&x.data))}=={s64::eliminate(a,1e-12).map(|_|s64::eye::<1>())});
ob!("C03","gjr_f64_1",(a:&[[f64;1];1])->Option<[[f64;1];1]>,{Matrix::new(*a).inverse_gauss_jordan().map(|x|s64::mm(&x.data,a))}=={s64::eliminate(a,1e-12).map(|_|s64::eye::<1>())});
ob!("C03","det_f64_2",(a:&[[f64;2];2])->f64,{Matrix::new(*a).determinant()}=={match s64::eliminate(a,1e-12){Some(_)=>s64::det2(a),None=>0.0}});
ob!("C03","lu_accepts_f64_2",(a:&[[f64;2];2])->bool,{Matrix::new(*a).lu_decompose().is_some()}=={s64::eliminate(a,f64::EPSILON).is_some()});
ob!("C03","lu_factors_f64_2",(a:&[[f64;2];2])->Option<[[f64;2];2]>,{Matrix::new(*a).lu_decompose().map(|d|{let (mut l,mut u)=([[0.0;2];2],[[0.0;2];2]);for i in 0..2{l[i][i]=1.0;for j in 0..2{if j<i{l[i][j]=d.lu[(i,j)]}else{u[i][j]=d.lu[(i,j)]}}}let p=s64::mm(&l,&u);let mut o=[[0.0;2];2];for i in 0..2{o[d.piv[i]]=p[i];}o})}=={s64::eliminate(a,f64::EPSILON).map(|_|*a)});
ob!("C03","lu_upper_f64_2",(a:&[[f64;2];2])->Option<[[f64;2];2]>,{Matrix::new(*a).lu_decompose().map(|d|{let mut u=[[0.0;2];2];for i in 0..2{for j in i..2{u[i][j]=d.lu[(i,j)]}}u})}=={s64::eliminate(a,f64::EPSILON).map(|(u,_)|u)});
ob!("C03","lu_sign_f64_2",(a:&[[f64;2];2])->i8,{Matrix::new(*a).lu_decompose().map(|d|d.sign).unwrap_or(0)}=={match s64::eliminate(a,f64::EPSILON){Some((_,odd))=>if odd{-1}else{1},None=>0}});
ob!("C03","solve_f64_2",(a:&[[f64;2];2],b:&[f64;2])->Option<[f64;2]>,{Matrix::new(*a).solve(&Vector::new(*b)).map(|x|s64::mv(a,&x.data))}=={s64::eliminate(a,f64::EPSILON).map(|_|*b)});
ob!("C03","solve_multi_f64_2",(a:&[[f64;2];2],b:&[[f64;2];2])->Option<[[f64;2];2]>,{Matrix::new(*a).solve_multi(&Matrix::new(*b)).map(|x|s64::mm(a,&x.data))}=={s64::eliminate(a,f64::EPSILON).map(|_|*b)});
ob!("C03","gj_f64_2",(a:&[[f64;2];2])->Option<[[f64;2];2]>,{Matrix::new(*a).inverse_gauss_jordan().map(|x|s64::mm(a,&x.data))}=={s64::eliminate(a,1e-12).map(|_|s64::eye::<2>())});
ob!("C03","gjr_f64_2",(a:&[[f64;2];2])->Option<[[f64;2];2]>,{Matrix::new(*a).inverse_gauss_jordan().map(|x|s64::mm(&x.data,a))}=={s64::eliminate(a,1e-12).map(|_|s64::eye::<2>())});
ob!("C03","det_f64_3",(a:&[[f64;3];3])->f64,{Matrix::new(*a).determinant()}=={match s64::eliminate(a,1e-12){Some(_)=>s64::det3(a),None=>0.0}});
ob!("C03","lu_accepts_f64_3",(a:&[[f64;3];3])->bool,{Matrix::new(*a).lu_decompose().is_some()}=={s64::eliminate(a,f64::EPSILON).is_some()});
ob!("C03","lu_factors_f64_3",(a:&[[f64;3];3])->Option<[[f64;3];3]>,{Matrix::new(*a).lu_decompose().map(|d|{let (mut l,mut u)=([[0.0;3];3],[[0.0;3];3]);for i in 0..3{l[i][i]=1.0;for j in 0..3{if j<i{l[i][j]=d.lu[(i,j)]}else{u[i][j]=d.lu[(i,j)]}}}let p=s64::mm(&l,&u);let mut o=[[0.0;3];3];for i in 0..3{o[d.piv[i]]=p[i];}o})}=={s64::eliminate(a,f64::EPSILON).map(|_|*a)});
ob!("C03","lu_upper_f64_3",(a:&[[f64;3];3])->Option<[[f64;3];3]>,{Matrix::new(*a).lu_decompose().map(|d|{let mut u=[[0.0;3];3];for i in 0..3{for j in i..3{u[i][j]=d.lu[(i,j)]}}u})}=={s64::eliminate(a,f64::EPSILON).map(|(u,_)|u)});
ob!("C03","lu_sign_f64_3",(a:&[[f64;3];3])->i8,{Matrix::new(*a).lu_decompose().map(|d|d.sign).unwrap_or(0)}=={match s64::eliminate(a,f64::EPSILON){Some((_,odd))=>if odd{-1}else{1},None=>0}});
ob!("C03","solve_f64_3",(a:&[[f64;3];3],b:&[f64;3])->Option<[f64;3]>,{Matrix::new(*a).solve(&Vector::new(*b)).map(|x|s64::mv(a,&x.data))}=={s64::eliminate(a,f64::EPSILON).map(|_|*b)});
ob!("C03","solve_multi_f64_3",(a:&[[f64;3];3],b:&[[f64;2];3])->Option<[[f64;2];3]>,{Matrix::new(*a).solve_multi(&Matrix::new(*b)).map(|x|s64::mm(a,&x.data))}=={s64::eliminate(a,f64::EPSILON).map(|_|*b)});
ob!("C03","gj_f64_3_012",(a:&[[f64;3];3])->Option<[[f64;3];3]>,{s64::natural(a);let mut b=*a;b[0]=a[0];b[1]=a[1];b[2]=a[2];Matrix::new(b).inverse_gauss_jordan().map(|x|s64::mm(&b,&x.data))}=={s64::natural(a);let mut b=*a;b[0]=a[0];b[1]=a[1];b[2]=a[2];if s64::last(a)>1e-12{Some(s64::eye::<3>())}else{None}});
ob!("C03","gj_f64_3_021",(a:&[[f64;3];3])->Option<[[f64;3];3]>,{s64::natural(a);let mut b=*a;b[0]=a[0];b[1]=a[2];b[2]=a[1];Matrix::new(b).inverse_gauss_jordan().map(|x|s64::mm(&b,&x.data))}=={s64::natural(a);let mut b=*a;b[0]=a[0];b[1]=a[2];b[2]=a[1];if s64::last(a)>1e-12{Some(s64::eye::<3>())}else{None}});
ob!("C03","gj_f64_3_102",(a:&[[f64;3];3])->Option<[[f64;3];3]>,{s64::natural(a);let mut b=*a;b[0]=a[1];b[1]=a[0];b[2]=a[2];Matrix::new(b).inverse_gauss_jordan().map(|x|s64::mm(&b,&x.data))}=={s64::natural(a);let mut b=*a;b[0]=a[1];b[1]=a[0];b[2]=a[2];if s64::last(a)>1e-12{Some(s64::eye::<3>())}else{None}});
ob!("C03","gj_f64_3_120",(a:&[[f64;3];3])->Option<[[f64;3];3]>,{s64::natural(a);let mut b=*a;b[0]=a[1];b[1]=a[2];b[2]=a[0];Matrix::new(b).inverse_gauss_jordan().map(|x|s64::mm(&b,&x.data))}=={s64::natural(a);let mut b=*a;b[0]=a[1];b[1]=a[2];b[2]=a[0];if s64::last(a)>1e-12{Some(s64::eye::<3>())}else{None}});
ob!("C03","gj_f64_3_201",(a:&[[f64;3];3])->Option<[[f64;3];3]>,{s64::natural(a);let mut b=*a;b[0]=a[2];b[1]=a[0];b[2]=a[1];Matrix::new(b).inverse_gauss_jordan().map(|x|s64::mm(&b,&x.data))}=={s64::natural(a);let mut b=*a;b[0]=a[2];b[1]=a[0];b[2]=a[1];if s64::last(a)>1e-12{Some(s64::eye::<3>())}else{None}});
ob!("C03","gj_f64_3_210",(a:&[[f64;3];3])->Option<[[f64;3];3]>,{s64::natural(a);let mut b=*a;b[0]=a[2];b[1]=a[1];b[2]=a[0];Matrix::new(b).inverse_gauss_jordan().map(|x|s64::mm(&b,&x.data))}=={s64::natural(a);let mut b=*a;b[0]=a[2];b[1]=a[1];b[2]=a[0];if s64::last(a)>1e-12{Some(s64::eye::<3>())}else{None}});
ob!("C03","gj_f64_3_zero1",(a:&[[f64;3];3])->Option<[[f64;3];3]>,{for i in 0..3{assume(a[i][0].abs()<=1e-12);}Matrix::new(*a).inverse_gauss_jordan().map(|x|x.data)}=={None::<[[f64;3];3]>});
ob!("C03","gj_f64_3_zero2",(a:&[[f64;3];3])->Option<[[f64;3];3]>,{assume(a[0][0]>a[1][0].abs());assume(a[0][0]>a[2][0].abs());assume(a[0][0]>1e-12);assume(a[1][0]!=0.0);assume(a[2][0]!=0.0);for i in 1..3{assume((a[i][1]-a[i][0]*a[0][1]/a[0][0]).abs()<=1e-12);}Matrix::new(*a).inverse_gauss_jordan().map(|x|x.data)}=={None::<[[f64;3];3]>});
ob!("C03","inv3_f64",(a:&[[f64;3];3])->Option<[[f64;3];3]>,{Matrix::new(*a).inverse().map(|x|s64::mm(a,&x.data))}=={match s64::eliminate(a,1e-12){Some(_) if s64::det3(a).abs()>1e-12=>Some(s64::eye::<3>()),_=>None}});
ob!("C03","chol_f64_1",(a:&[[f64;1];1])->Option<[[f64;1];1]>,{Matrix::new(*a).cholesky_lower().map(|c|c.l.data)}=={s64::chol(a)});
ob!("C03","chol_solve_f64_1",(a:&[[f64;1];1],b:&[f64;1])->Option<[f64;1]>,{let mut m=*a;for i in 0..1{for j in i+1..1{m[i][j]=a[j][i];}}Matrix::new(*a).cholesky_solve(&Vector::new(*b)).map(|x|s64::mv(&m,&x.data))}=={s64::chol(a).map(|_|*b)});
ob!("C03","lu_apply_f64_1",(a:&[[f64;1];1],b:&[f64;1])->[f64;1],{let mut piv=[0usize;1];for i in 0..1{piv[i]=1-1-i;}let d=LuDecomp{lu:Matrix::new(*a),piv,sign:1};let x=d.solve(&Vector::new(*b)).data;let (mut l,mut u)=([[0.0;1];1],[[0.0;1];1]);for i in 0..1{l[i][i]=1.0;for j in 0..1{if j<i{l[i][j]=a[i][j]}else{u[i][j]=a[i][j]}}}s64::mv(&l,&s64::mv(&u,&x))}=={let mut o=*b;o.reverse();o});
ob!("C03","chol_apply_f64_1",(a:&[[f64;1];1],b:&[f64;1])->[f64;1],{let mut l=[[0.0;1];1];let mut lt=l;for i in 0..1{for j in 0..=i{l[i][j]=a[i][j];lt[j][i]=a[i][j];}}let x=CholLower{l:Matrix::new(l)}.solve(&Vector::new(*b)).data;s64::mv(&l,&s64::mv(&lt,&x))}=={*b});
ob!("C03","chol_f64_2",(a:&[[f64;2];2])->Option<[[f64;2];2]>,{Matrix::new(*a).cholesky_lower().map(|c|c.l.data)}=={s64::chol(a)});
ob!("C03","chol_solve_f64_2",(a:&[[f64;2];2],b:&[f64;2])->Option<[f64;2]>,{let mut m=*a;for i in 0..2{for j in i+1..2{m[i][j]=a[j][i];}}Matrix::new(*a).cholesky_solve(&Vector::new(*b)).map(|x|s64::mv(&m,&x.data))}=={s64::chol(a).map(|_|*b)});
ob!("C03","lu_apply_f64_2",(a:&[[f64;2];2],b:&[f64;2])->[f64;2],{let mut piv=[0usize;2];for i in 0..2{piv[i]=2-1-i;}let d=LuDecomp{lu:Matrix::new(*a),piv,sign:1};let x=d.solve(&Vector::new(*b)).data;let (mut l,mut u)=([[0.0;2];2],[[0.0;2];2]);for i in 0..2{l[i][i]=1.0;for j in 0..2{if j<i{l[i][j]=a[i][j]}else{u[i][j]=a[i][j]}}}s64::mv(&l,&s64::mv(&u,&x))}=={let mut o=*b;o.reverse();o});
ob!("C03","chol_apply_f64_2",(a:&[[f64;2];2],b:&[f64;2])->[f64;2],{let mut l=[[0.0;2];2];let mut lt=l;for i in 0..2{for j in 0..=i{l[i][j]=a[i][j];lt[j][i]=a[i][j];}}let x=CholLower{l:Matrix::new(l)}.solve(&Vector::new(*b)).data;s64::mv(&l,&s64::mv(&lt,&x))}=={*b});
ob!("C03","chol_f64_3",(a:&[[f64;3];3])->Option<[[f64;3];3]>,{Matrix::new(*a).cholesky_lower().map(|c|c.l.data)}=={s64::chol(a)});
ob!("C03","chol_solve_f64_3",(a:&[[f64;3];3],b:&[f64;3])->Option<[f64;3]>,{let mut m=*a;for i in 0..3{for j in i+1..3{m[i][j]=a[j][i];}}Matrix::new(*a).cholesky_solve(&Vector::new(*b)).map(|x|s64::mv(&m,&x.data))}=={s64::chol(a).map(|_|*b)});
ob!("C03","lu_apply_f64_3",(a:&[[f64;3];3],b:&[f64;3])->[f64;3],{let mut piv=[0usize;3];for i in 0..3{piv[i]=3-1-i;}let d=LuDecomp{lu:Matrix::new(*a),piv,sign:1};let x=d.solve(&Vector::new(*b)).data;let (mut l,mut u)=([[0.0;3];3],[[0.0;3];3]);for i in 0..3{l[i][i]=1.0;for j in 0..3{if j<i{l[i][j]=a[i][j]}else{u[i][j]=a[i][j]}}}s64::mv(&l,&s64::mv(&u,&x))}=={let mut o=*b;o.reverse();o});
ob!("C03","chol_apply_f64_3",(a:&[[f64;3];3],b:&[f64;3])->[f64;3],{let mut l=[[0.0;3];3];let mut lt=l;for i in 0..3{for j in 0..=i{l[i][j]=a[i][j];lt[j][i]=a[i][j];}}let x=CholLower{l:Matrix::new(l)}.solve(&Vector::new(*b)).data;s64::mv(&l,&s64::mv(&lt,&x))}=={*b});
ob!("C03","chol_f64_4",(a:&[[f64;4];4])->Option<[[f64;4];4]>,{Matrix::new(*a).cholesky_lower().map(|c|c.l.data)}=={s64::chol(a)});
ob!("C03","lu_apply_f64_4",(a:&[[f64;4];4],b:&[f64;4])->[f64;4],{let mut piv=[0usize;4];for i in 0..4{piv[i]=4-1-i;}let d=LuDecomp{lu:Matrix::new(*a),piv,sign:1};let x=d.solve(&Vector::new(*b)).data;let (mut l,mut u)=([[0.0;4];4],[[0.0;4];4]);for i in 0..4{l[i][i]=1.0;for j in 0..4{if j<i{l[i][j]=a[i][j]}else{u[i][j]=a[i][j]}}}s64::mv(&l,&s64::mv(&u,&x))}=={let mut o=*b;o.reverse();o});
ob!("C03","chol_apply_f64_4",(a:&[[f64;4];4],b:&[f64;4])->[f64;4],{let mut l=[[0.0;4];4];let mut lt=l;for i in 0..4{for j in 0..=i{l[i][j]=a[i][j];lt[j][i]=a[i][j];}}let x=CholLower{l:Matrix::new(l)}.solve(&Vector::new(*b)).data;s64::mv(&l,&s64::mv(&lt,&x))}=={*b});
ob!("C03","det_f32_1",(a:&[[f32;1];1])->f32,{Matrix::new(*a).determinant()}=={match s32::eliminate(a,1e-12){Some(_)=>s32::det1(a),None=>0.0}});
ob!("C03","lu_accepts_f32_1",(a:&[[f32;1];1])->bool,{Matrix::new(*a).lu_decompose().is_some()}=={s32::eliminate(a,f32::EPSILON).is_some()});
ob!("C03","lu_factors_f32_1",(a:&[[f32;1];1])->Option<[[f64;1];1]>,{w({Matrix::new(*a).lu_decompose().map(|d|{let (mut l,mut u)=([[0.0;1];1],[[0.0;1];1]);for i in 0..1{l[i][i]=1.0;for j in 0..1{if j<i{l[i][j]=d.lu[(i,j)]}else{u[i][j]=d.lu[(i,j)]}}}let p=s32::mm(&l,&u);let mut o=[[0.0;1];1];for i in 0..1{o[d.piv[i]]=p[i];}o})})}=={w({s32::eliminate(a,f32::EPSILON).map(|_|*a)})});
ob!("C03","lu_upper_f32_1",(a:&[[f32;1];1])->Option<[[f64;1];1]>,{w({Matrix::new(*a).lu_decompose().map(|d|{let mut u=[[0.0;1];1];for i in 0..1{for j in i..1{u[i][j]=d.lu[(i,j)]}}u})})}=={w({s32::eliminate(a,f32::EPSILON).map(|(u,_)|u)})});
ob!("C03","lu_sign_f32_1",(a:&[[f32;1];1])->i8,{Matrix::new(*a).lu_decompose().map(|d|d.sign).unwrap_or(0)}=={match s32::eliminate(a,f32::EPSILON){Some((_,odd))=>if odd{-1}else{1},None=>0}});
ob!("C03","solve_f32_1",(a:&[[f32;1];1],b:&[f32;1])->Option<[f64;1]>,{w({Matrix::new(*a).solve(&Vector::new(*b)).map(|x|s32::mv(a,&x.data))})}=={w({s32::eliminate(a,f32::EPSILON).map(|_|*b)})});
ob!("C03","solve_multi_f32_1",(a:&[[f32;1];1],b:&[[f32;2];1])->Option<[[f64;2];1]>,{w({Matrix::new(*a).solve_multi(&Matrix::new(*b)).map(|x|s32::mm(a,&x.data))})}=={w({s32::eliminate(a,f32::EPSILON).map(|_|*b)})});
ob!("C03","gj_f32_1",(a:&[[f32;1];1])->Option<[[f64;1];1]>,{w({Matrix::new(*a).inverse_gauss_jordan().map(|x|s32::mm(a,&x.data))})}=={w({s32::eliminate(a,1e-12).map(|_|s32::eye::<1>())})});
ob!("C03","gjr_f32_1",(a:&[[f32;1];1])->Option<[[f64;1];1]>,{w({Matrix::new(*a).inverse_gauss_jordan().map(|x|s32::mm(&x.data,a))})}=={w({s32::eliminate(a,1e-12).map(|_|s32::eye::<1>())})});
ob!("C03","det_f32_2",(a:&[[f32;2];2])->f32,{Matrix::new(*a).determinant()}=={match s32::eliminate(a,1e-12){Some(_)=>s32::det2(a),None=>0.0}});
ob!("C03","lu_accepts_f32_2",(a:&[[f32;2];2])->bool,{Matrix::new(*a).lu_decompose().is_some()}=={s32::eliminate(a,f32::EPSILON).is_some()});
ob!("C03","lu_factors_f32_2",(a:&[[f32;2];2])->Option<[[f64;2];2]>,{w({Matrix::new(*a).lu_decompose().map(|d|{let (mut l,mut u)=([[0.0;2];2],[[0.0;2];2]);for i in 0..2{l[i][i]=1.0;for j in 0..2{if j<i{l[i][j]=d.lu[(i,j)]}else{u[i][j]=d.lu[(i,j)]}}}let p=s32::mm(&l,&u);let mut o=[[0.0;2];2];for i in 0..2{o[d.piv[i]]=p[i];}o})})}=={w({s32::eliminate(a,f32::EPSILON).map(|_|*a)})});
ob!("C03","lu_upper_f32_2",(a:&[[f32;2];2])->Option<[[f64;2];2]>,{w({Matrix::new(*a).lu_decompose().map(|d|{let mut u=[[0.0;2];2];for i in 0..2{for j in i..2{u[i][j]=d.lu[(i,j)]}}u})})}=={w({s32::eliminate(a,f32::EPSILON).map(|(u,_)|u)})});
ob!("C03","lu_sign_f32_2",(a:&[[f32;2];2])->i8,{Matrix::new(*a).lu_decompose().map(|d|d.sign).unwrap_or(0)}=={match s32::eliminate(a,f32::EPSILON){Some((_,odd))=>if odd{-1}else{1},None=>0}});
ob!("C03","solve_f32_2",(a:&[[f32;2];2],b:&[f32;2])->Option<[f64;2]>,{w({Matrix::new(*a).solve(&Vector::new(*b)).map(|x|s32::mv(a,&x.data))})}=={w({s32::eliminate(a,f32::EPSILON).map(|_|*b)})});
ob!("C03","solve_multi_f32_2",(a:&[[f32;2];2],b:&[[f32;2];2])->Option<[[f64;2];2]>,{w({Matrix::new(*a).solve_multi(&Matrix::new(*b)).map(|x|s32::mm(a,&x.data))})}=={w({s32::eliminate(a,f32::EPSILON).map(|_|*b)})});
ob!("C03","gj_f32_2",(a:&[[f32;2];2])->Option<[[f64;2];2]>,{w({Matrix::new(*a).inverse_gauss_jordan().map(|x|s32::mm(a,&x.data))})}=={w({s32::eliminate(a,1e-12).map(|_|s32::eye::<2>())})});
ob!("C03","gjr_f32_2",(a:&[[f32;2];2])->Option<[[f64;2];2]>,{w({Matrix::new(*a).inverse_gauss_jordan().map(|x|s32::mm(&x.data,a))})}=={w({s32::eliminate(a,1e-12).map(|_|s32::eye::<2>())})});
ob!("C03","det_f32_3",(a:&[[f32;3];3])->f32,{Matrix::new(*a).determinant()}=={match s32::eliminate(a,1e-12){Some(_)=>s32::det3(a),None=>0.0}});
ob!("C03","lu_accepts_f32_3",(a:&[[f32;3];3])->bool,{Matrix::new(*a).lu_decompose().is_some()}=={s32::eliminate(a,f32::EPSILON).is_some()});
ob!("C03","lu_factors_f32_3",(a:&[[f32;3];3])->Option<[[f64;3];3]>,{w({Matrix::new(*a).lu_decompose().map(|d|{let (mut l,mut u)=([[0.0;3];3],[[0.0;3];3]);for i in 0..3{l[i][i]=1.0;for j in 0..3{if j<i{l[i][j]=d.lu[(i,j)]}else{u[i][j]=d.lu[(i,j)]}}}let p=s32::mm(&l,&u);let mut o=[[0.0;3];3];for i in 0..3{o[d.piv[i]]=p[i];}o})})}=={w({s32::eliminate(a,f32::EPSILON).map(|_|*a)})});
ob!("C03","lu_upper_f32_3",(a:&[[f32;3];3])->Option<[[f64;3];3]>,{w({Matrix::new(*a).lu_decompose().map(|d|{let mut u=[[0.0;3];3];for i in 0..3{for j in i..3{u[i][j]=d.lu[(i,j)]}}u})})}=={w({s32::eliminate(a,f32::EPSILON).map(|(u,_)|u)})});
ob!("C03","lu_sign_f32_3",(a:&[[f32;3];3])->i8,{Matrix::new(*a).lu_decompose().map(|d|d.sign).unwrap_or(0)}=={match s32::eliminate(a,f32::EPSILON){Some((_,odd))=>if odd{-1}else{1},None=>0}});
ob!("C03","solve_f32_3",(a:&[[f32;3];3],b:&[f32;3])->Option<[f64;3]>,{w({Matrix::new(*a).solve(&Vector::new(*b)).map(|x|s32::mv(a,&x.data))})}=={w({s32::eliminate(a,f32::EPSILON).map(|_|*b)})});
ob!("C03","solve_multi_f32_3",(a:&[[f32;3];3],b:&[[f32;2];3])->Option<[[f64;2];3]>,{w({Matrix::new(*a).solve_multi(&Matrix::new(*b)).map(|x|s32::mm(a,&x.data))})}=={w({s32::eliminate(a,f32::EPSILON).map(|_|*b)})});
ob!("C03","gj_f32_3_012",(a:&[[f32;3];3])->Option<[[f64;3];3]>,{w({s32::natural(a);let mut b=*a;b[0]=a[0];b[1]=a[1];b[2]=a[2];Matrix::new(b).inverse_gauss_jordan().map(|x|s32::mm(&b,&x.data))})}=={w({s32::natural(a);let mut b=*a;b[0]=a[0];b[1]=a[1];b[2]=a[2];if s32::last(a)>1e-12{Some(s32::eye::<3>())}else{None}})});
ob!("C03","gj_f32_3_021",(a:&[[f32;3];3])->Option<[[f64;3];3]>,{w({s32::natural(a);let mut b=*a;b[0]=a[0];b[1]=a[2];b[2]=a[1];Matrix::new(b).inverse_gauss_jordan().map(|x|s32::mm(&b,&x.data))})}=={w({s32::natural(a);let mut b=*a;b[0]=a[0];b[1]=a[2];b[2]=a[1];if s32::last(a)>1e-12{Some(s32::eye::<3>())}else{None}})});
ob!("C03","gj_f32_3_102",(a:&[[f32;3];3])->Option<[[f64;3];3]>,{w({s32::natural(a);let mut b=*a;b[0]=a[1];b[1]=a[0];b[2]=a[2];Matrix::new(b).inverse_gauss_jordan().map(|x|s32::mm(&b,&x.data))})}=={w({s32::natural(a);let mut b=*a;b[0]=a[1];b[1]=a[0];b[2]=a[2];if s32::last(a)>1e-12{Some(s32::eye::<3>())}else{None}})});
ob!("C03","gj_f32_3_120",(a:&[[f32;3];3])->Option<[[f64;3];3]>,{w({s32::natural(a);let mut b=*a;b[0]=a[1];b[1]=a[2];b[2]=a[0];Matrix::new(b).inverse_gauss_jordan().map(|x|s32::mm(&b,&x.data))})}=={w({s32::natural(a);let mut b=*a;b[0]=a[1];b[1]=a[2];b[2]=a[0];if s32::last(a)>1e-12{Some(s32::eye::<3>())}else{None}})});
ob!("C03","gj_f32_3_201",(a:&[[f32;3];3])->Option<[[f64;3];3]>,{w({s32::natural(a);let mut b=*a;b[0]=a[2];b[1]=a[0];b[2]=a[1];Matrix::new(b).inverse_gauss_jordan().map(|x|s32::mm(&b,&x.data))})}=={w({s32::natural(a);let mut b=*a;b[0]=a[2];b[1]=a[0];b[2]=a[1];if s32::last(a)>1e-12{Some(s32::eye::<3>())}else{None}})});
ob!("C03","gj_f32_3_210",(a:&[[f32;3];3])->Option<[[f64;3];3]>,{w({s32::natural(a);let mut b=*a;b[0]=a[2];b[1]=a[1];b[2]=a[0];Matrix::new(b).inverse_gauss_jordan().map(|x|s32::mm(&b,&x.data))})}=={w({s32::natural(a);let mut b=*a;b[0]=a[2];b[1]=a[1];b[2]=a[0];if s32::last(a)>1e-12{Some(s32::eye::<3>())}else{None}})});
ob!("C03","gj_f32_3_zero1",(a:&[[f32;3];3])->Option<[[f64;3];3]>,{w({for i in 0..3{assume(a[i][0].abs()<=1e-12);}Matrix::new(*a).inverse_gauss_jordan().map(|x|x.data)})}=={w({None::<[[f32;3];3]>})});
ob!("C03","gj_f32_3_zero2",(a:&[[f32;3];3])->Option<[[f64;3];3]>,{w({assume(a[0][0]>a[1][0].abs());assume(a[0][0]>a[2][0].abs());assume(a[0][0]>1e-12);assume(a[1][0]!=0.0);assume(a[2][0]!=0.0);for i in 1..3{assume((a[i][1]-a[i][0]*a[0][1]/a[0][0]).abs()<=1e-12);}Matrix::new(*a).inverse_gauss_jordan().map(|x|x.data)})}=={w({None::<[[f32;3];3]>})});
ob!("C03","inv3_f32",(a:&[[f32;3];3])->Option<[[f64;3];3]>,{w({Matrix::new(*a).inverse().map(|x|s32::mm(a,&x.data))})}=={w({match s32::eliminate(a,1e-12){Some(_) if s32::det3(a).abs()>1e-12=>Some(s32::eye::<3>()),_=>None}})});
ob!("C03","chol_f32_1",(a:&[[f32;1];1])->Option<[[f64;1];1]>,{w({Matrix::new(*a).cholesky_lower().map(|c|c.l.data)})}=={w({s32::chol(a)})});
ob!("C03","chol_solve_f32_1",(a:&[[f32;1];1],b:&[f32;1])->Option<[f64;1]>,{w({let mut m=*a;for i in 0..1{for j in i+1..1{m[i][j]=a[j][i];}}Matrix::new(*a).cholesky_solve(&Vector::new(*b)).map(|x|s32::mv(&m,&x.data))})}=={w({s32::chol(a).map(|_|*b)})});
ob!("C03","lu_apply_f32_1",(a:&[[f32;1];1],b:&[f32;1])->[f64;1],{w({let mut piv=[0usize;1];for i in 0..1{piv[i]=1-1-i;}let d=LuDecomp{lu:Matrix::new(*a),piv,sign:1};let x=d.solve(&Vector::new(*b)).data;let (mut l,mut u)=([[0.0;1];1],[[0.0;1];1]);for i in 0..1{l[i][i]=1.0;for j in 0..1{if j<i{l[i][j]=a[i][j]}else{u[i][j]=a[i][j]}}}s32::mv(&l,&s32::mv(&u,&x))})}=={w({let mut o=*b;o.reverse();o})});
ob!("C03","chol_apply_f32_1",(a:&[[f32;1];1],b:&[f32;1])->[f64;1],{w({let mut l=[[0.0;1];1];let mut lt=l;for i in 0..1{for j in 0..=i{l[i][j]=a[i][j];lt[j][i]=a[i][j];}}let x=CholLower{l:Matrix::new(l)}.solve(&Vector::new(*b)).data;s32::mv(&l,&s32::mv(&lt,&x))})}=={w({*b})});
ob!("C03","chol_f32_2",(a:&[[f32;2];2])->Option<[[f64;2];2]>,{w({Matrix::new(*a).cholesky_lower().map(|c|c.l.data)})}=={w({s32::chol(a)})});
ob!("C03","chol_solve_f32_2",(a:&[[f32;2];2],b:&[f32;2])->Option<[f64;2]>,{w({let mut m=*a;for i in 0..2{for j in i+1..2{m[i][j]=a[j][i];}}Matrix::new(*a).cholesky_solve(&Vector::new(*b)).map(|x|s32::mv(&m,&x.data))})}=={w({s32::chol(a).map(|_|*b)})});
ob!("C03","lu_apply_f32_2",(a:&[[f32;2];2],b:&[f32;2])->[f64;2],{w({let mut piv=[0usize;2];for i in 0..2{piv[i]=2-1-i;}let d=LuDecomp{lu:Matrix::new(*a),piv,sign:1};let x=d.solve(&Vector::new(*b)).data;let (mut l,mut u)=([[0.0;2];2],[[0.0;2];2]);for i in 0..2{l[i][i]=1.0;for j in 0..2{if j<i{l[i][j]=a[i][j]}else{u[i][j]=a[i][j]}}}s32::mv(&l,&s32::mv(&u,&x))})}=={w({let mut o=*b;o.reverse();o})});
ob!("C03","chol_apply_f32_2",(a:&[[f32;2];2],b:&[f32;2])->[f64;2],{w({let mut l=[[0.0;2];2];let mut lt=l;for i in 0..2{for j in 0..=i{l[i][j]=a[i][j];lt[j][i]=a[i][j];}}let x=CholLower{l:Matrix::new(l)}.solve(&Vector::new(*b)).data;s32::mv(&l,&s32::mv(&lt,&x))})}=={w({*b})});
ob!("C03","chol_f32_3",(a:&[[f32;3];3])->Option<[[f64;3];3]>,{w({Matrix::new(*a).cholesky_lower().map(|c|c.l.data)})}=={w({s32::chol(a)})});
ob!("C03","chol_solve_f32_3",(a:&[[f32;3];3],b:&[f32;3])->Option<[f64;3]>,{w({let mut m=*a;for i in 0..3{for j in i+1..3{m[i][j]=a[j][i];}}Matrix::new(*a).cholesky_solve(&Vector::new(*b)).map(|x|s32::mv(&m,&x.data))})}=={w({s32::chol(a).map(|_|*b)})});
ob!("C03","lu_apply_f32_3",(a:&[[f32;3];3],b:&[f32;3])->[f64;3],{w({let mut piv=[0usize;3];for i in 0..3{piv[i]=3-1-i;}let d=LuDecomp{lu:Matrix::new(*a),piv,sign:1};let x=d.solve(&Vector::new(*b)).data;let (mut l,mut u)=([[0.0;3];3],[[0.0;3];3]);for i in 0..3{l[i][i]=1.0;for j in 0..3{if j<i{l[i][j]=a[i][j]}else{u[i][j]=a[i][j]}}}s32::mv(&l,&s32::mv(&u,&x))})}=={w({let mut o=*b;o.reverse();o})});
ob!("C03","chol_apply_f32_3",(a:&[[f32;3];3],b:&[f32;3])->[f64;3],{w({let mut l=[[0.0;3];3];let mut lt=l;for i in 0..3{for j in 0..=i{l[i][j]=a[i][j];lt[j][i]=a[i][j];}}let x=CholLower{l:Matrix::new(l)}.solve(&Vector::new(*b)).data;s32::mv(&l,&s32::mv(&lt,&x))})}=={w({*b})});
ob!("C03","chol_f32_4",(a:&[[f32;4];4])->Option<[[f64;4];4]>,{w({Matrix::new(*a).cholesky_lower().map(|c|c.l.data)})}=={w({s32::chol(a)})});
ob!("C03","lu_apply_f32_4",(a:&[[f32;4];4],b:&[f32;4])->[f64;4],{w({let mut piv=[0usize;4];for i in 0..4{piv[i]=4-1-i;}let d=LuDecomp{lu:Matrix::new(*a),piv,sign:1};let x=d.solve(&Vector::new(*b)).data;let (mut l,mut u)=([[0.0;4];4],[[0.0;4];4]);for i in 0..4{l[i][i]=1.0;for j in 0..4{if j<i{l[i][j]=a[i][j]}else{u[i][j]=a[i][j]}}}s32::mv(&l,&s32::mv(&u,&x))})}=={w({let mut o=*b;o.reverse();o})});
ob!("C03","chol_apply_f32_4",(a:&[[f32;4];4],b:&[f32;4])->[f64;4],{w({let mut l=[[0.0;4];4];let mut lt=l;for i in 0..4{for j in 0..=i{l[i][j]=a[i][j];lt[j][i]=a[i][j];}}let x=CholLower{l:Matrix::new(l)}.solve(&Vector::new(*b)).data;s32::mv(&l,&s32::mv(&lt,&x))})}=={w({*b})});
