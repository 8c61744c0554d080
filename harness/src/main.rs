fn main() {
    vdrv::main_with(None)
}
