fn main() {
    let a: Vec<String> = std::env::args().collect();
    let h = std::fs::read_to_string(&a[2]).unwrap();
    let bytes: Vec<u8> = h.split_whitespace().map(|x| u8::from_str_radix(x, 16).unwrap()).collect();
    vk::run(&a[1], bytes);
}
