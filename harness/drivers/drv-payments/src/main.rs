fn main() {
	drv_payments::main()
}
