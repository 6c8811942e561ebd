fn main() {
	drv_tx::main()
}
