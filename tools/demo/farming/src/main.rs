mod kit;
mod sim;

use kit::*;

fn main() {
    let mut k = Kit::new(2, 2);
    k.create_farm(0, 0).unwrap();
    k.window(0, 10).unwrap();
    k.add_harvest(0, 1).unwrap();
    k.create_farmer(0, 0).unwrap();
    k.start(0, 0, 0, 100).unwrap();
    k.slot(10_010);
    k.snapshot(0).unwrap();
    k.period(0, 1, 0, 10, 7).unwrap();
    k.slot(10_012);
    k.update(0, 0).unwrap();
    assert_eq!(k.position(0, 0).unwrap().pending(1), 21);
}
