fn main() {
	drv_communities::main()
}
