fn main() {
    harness::run(|_, _, _| true)
}
