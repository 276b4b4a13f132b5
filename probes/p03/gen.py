o=[]
for t,s in (("f64","s64"),("f32","s32")):
    E="f64::EPSILON" if t=="f64" else "f32::EPSILON"
    T="1e-12"
    for n in (1,2,3):
        A="a:&[[%s;%d];%d]"%(t,n,n)
        b="b:&[%s;%d]"%(t,n)
        M="Matrix::new(*a)"
        o.append(f'ob!("C03","det_{t}_{n}",({A})->{t},{{{M}.determinant()}}=={{match {s}::eliminate(a,{T}){{Some(_)=>{s}::det{n}(a),None=>0.0}}}});')
        o.append(f'ob!("C03","lu_accepts_{t}_{n}",({A})->bool,{{{M}.lu_decompose().is_some()}}=={{{s}::eliminate(a,{E}).is_some()}});')
        o.append(f'ob!("C03","lu_factors_{t}_{n}",({A})->Option<[[{t};{n}];{n}]>,{{{M}.lu_decompose().map(|d|{{let (mut l,mut u)=([[0.0;{n}];{n}],[[0.0;{n}];{n}]);for i in 0..{n}{{l[i][i]=1.0;for j in 0..{n}{{if j<i{{l[i][j]=d.lu[(i,j)]}}else{{u[i][j]=d.lu[(i,j)]}}}}}}let p={s}::mm(&l,&u);let mut o=[[0.0;{n}];{n}];for i in 0..{n}{{o[d.piv[i]]=p[i];}}o}})}}=={{{s}::eliminate(a,{E}).map(|_|*a)}});')
        o.append(f'ob!("C03","lu_upper_{t}_{n}",({A})->Option<[[{t};{n}];{n}]>,{{{M}.lu_decompose().map(|d|{{let mut u=[[0.0;{n}];{n}];for i in 0..{n}{{for j in i..{n}{{u[i][j]=d.lu[(i,j)]}}}}u}})}}=={{{s}::eliminate(a,{E}).map(|(u,_)|u)}});')
        o.append(f'ob!("C03","lu_sign_{t}_{n}",({A})->i8,{{{M}.lu_decompose().map(|d|d.sign).unwrap_or(0)}}=={{match {s}::eliminate(a,{E}){{Some((_,odd))=>if odd{{-1}}else{{1}},None=>0}}}});')
        o.append(f'ob!("C03","solve_{t}_{n}",({A},{b})->Option<[{t};{n}]>,{{{M}.solve(&Vector::new(*b)).map(|x|{s}::mv(a,&x.data))}}=={{{s}::eliminate(a,{E}).map(|_|*b)}});')
        o.append(f'ob!("C03","solve_multi_{t}_{n}",({A},b:&[[{t};2];{n}])->Option<[[{t};2];{n}]>,{{{M}.solve_multi(&Matrix::new(*b)).map(|x|{s}::mm(a,&x.data))}}=={{{s}::eliminate(a,{E}).map(|_|*b)}});')
        if n<3: o.append(f'ob!("C03","gj_{t}_{n}",({A})->Option<[[{t};{n}];{n}]>,{{{M}.inverse_gauss_jordan().map(|x|{s}::mm(a,&x.data))}}=={{{s}::eliminate(a,{T}).map(|_|{s}::eye::<{n}>())}});')
        if n<3: o.append(f'ob!("C03","gjr_{t}_{n}",({A})->Option<[[{t};{n}];{n}]>,{{{M}.inverse_gauss_jordan().map(|x|{s}::mm(&x.data,a))}}=={{{s}::eliminate(a,{T}).map(|_|{s}::eye::<{n}>())}});')
        if n==3:
            import itertools
            for pm in itertools.permutations(range(3)):
                nm="".join(map(str,pm))
                nat=f'{s}::natural(a);let mut b=*a;'+"".join(f'b[{i}]=a[{q}];' for i,q in enumerate(pm))
                o.append(f'ob!("C03","gj_{t}_{n}_{nm}",({A})->Option<[[{t};{n}];{n}]>,{{{nat}Matrix::new(b).inverse_gauss_jordan().map(|x|{s}::mm(&b,&x.data))}}=={{{nat}if {s}::last(a)>{T}{{Some({s}::eye::<{n}>())}}else{{None}}}});')
            o.append(f'ob!("C03","gj_{t}_{n}_zero1",({A})->Option<[[{t};{n}];{n}]>,{{for i in 0..3{{assume(a[i][0].abs()<={T});}}{M}.inverse_gauss_jordan().map(|x|x.data)}}=={{None::<[[{t};3];3]>}});')
            o.append(f'ob!("C03","gj_{t}_{n}_zero2",({A})->Option<[[{t};{n}];{n}]>,{{assume(a[0][0]>a[1][0].abs());assume(a[0][0]>a[2][0].abs());assume(a[0][0]>{T});assume(a[1][0]!=0.0);assume(a[2][0]!=0.0);for i in 1..3{{assume((a[i][1]-a[i][0]*a[0][1]/a[0][0]).abs()<={T});}}{M}.inverse_gauss_jordan().map(|x|x.data)}}=={{None::<[[{t};3];3]>}});')
        # solving from given factors: L U x = P b for arbitrary factors
    A="a:&[[%s;3];3]"%t
    o.append(f'ob!("C03","inv3_{t}",({A})->Option<[[{t};3];3]>,{{Matrix::new(*a).inverse().map(|x|{s}::mm(a,&x.data))}}=={{match {s}::eliminate(a,{T}){{Some(_) if {s}::det3(a).abs()>{T}=>Some({s}::eye::<3>()),_=>None}}}});')
    for n in (1,2,3,4):
        A="a:&[[%s;%d];%d]"%(t,n,n)
        b="b:&[%s;%d]"%(t,n)
        M="Matrix::new(*a)"
        o.append(f'ob!("C03","chol_{t}_{n}",({A})->Option<[[{t};{n}];{n}]>,{{{M}.cholesky_lower().map(|c|c.l.data)}}=={{{s}::chol(a)}});')
        if n<4:
            sym=f'let mut m=*a;for i in 0..{n}{{for j in i+1..{n}{{m[i][j]=a[j][i];}}}}'
            o.append(f'ob!("C03","chol_solve_{t}_{n}",({A},{b})->Option<[{t};{n}]>,{{{sym}{M}.cholesky_solve(&Vector::new(*b)).map(|x|{s}::mv(&m,&x.data))}}=={{{s}::chol(a).map(|_|*b)}});')
        o.append(f'ob!("C03","lu_apply_{t}_{n}",({A},{b})->[{t};{n}],{{let mut piv=[0usize;{n}];for i in 0..{n}{{piv[i]={n}-1-i;}}let d=LuDecomp{{lu:{M},piv,sign:1}};let x=d.solve(&Vector::new(*b)).data;let (mut l,mut u)=([[0.0;{n}];{n}],[[0.0;{n}];{n}]);for i in 0..{n}{{l[i][i]=1.0;for j in 0..{n}{{if j<i{{l[i][j]=a[i][j]}}else{{u[i][j]=a[i][j]}}}}}}{s}::mv(&l,&{s}::mv(&u,&x))}}=={{let mut o=*b;o.reverse();o}});')
        o.append(f'ob!("C03","chol_apply_{t}_{n}",({A},{b})->[{t};{n}],{{let mut l=[[0.0;{n}];{n}];let mut lt=l;for i in 0..{n}{{for j in 0..=i{{l[i][j]=a[i][j];lt[j][i]=a[i][j];}}}}let x=CholLower{{l:Matrix::new(l)}}.solve(&Vector::new(*b)).data;{s}::mv(&l,&{s}::mv(&lt,&x))}}=={{*b}});')
import re
for k,l in enumerate(o):
    if '_f32_' in l.split(",")[1] or '_f32"' in l.split(",")[1]:
        m=re.search(r'->(Option<\[.*\]>|\[f32;\d\]),\{',l)
        if m:
            i=l.index("}=={")
            l=l[:m.start()]+"->"+m.group(1).replace("f32","f64")+",{w({"+l[m.end():i]+"})}=={w({"+l[i+4:-3]+"})});"
            o[k]=l
open("src/obs.rs","w").write("\n".join(o)+"\n")
