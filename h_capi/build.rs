fn main() {
    // what the library exports stays visible to dlsym
    println!("cargo:rustc-link-arg=-rdynamic");
}
