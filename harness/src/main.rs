#[global_allocator]
static GLOBAL: pm2h::alloc::Counting = pm2h::alloc::Counting;

fn main() {
    pm2h::cli::main(std::env::args().skip(1).collect());
}
