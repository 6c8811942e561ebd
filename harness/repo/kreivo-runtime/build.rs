// The runtime includes the path of its own wasm build, which is not made here.
fn main() {
	let out = std::path::PathBuf::from(std::env::var_os("OUT_DIR").expect("cargo sets it"));
	std::fs::write(out.join("wasm_binary.rs"), "").expect("can write there");
}
