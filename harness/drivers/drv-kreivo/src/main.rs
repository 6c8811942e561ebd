fn main() {
	drv_kreivo::main()
}
