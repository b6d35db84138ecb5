mod rt;
use rt::*;
fn main() {
    init();
    let mut w = World::default();
    let (a, o, u) = (key(1), key(2), key(3));
    w.create(a, o, u, 0, true, &[(2, [str8("t/p"), vec![1, 2, 3]].concat())], None).unwrap();
    println!("{:?}", exts(&w.get(a).data));
}
