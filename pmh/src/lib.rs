//! The harness inside a procedural macro: `run!(tokens)` executes the mode given in PM2H_ARGS
//! (arguments separated by U+001F); the tokens are at its disposal.
extern crate proc_macro;

#[proc_macro]
pub fn run(input: proc_macro::TokenStream) -> proc_macro::TokenStream {
    let args: Vec<String> = std::env::var("PM2H_ARGS").unwrap().split('\u{1f}').map(String::from).collect();
    struct Leave;
    impl Drop for Leave {
        fn drop(&mut self) {
            pm2h::pm::leave();
        }
    }
    pm2h::pm::enter(input);
    let leave = Leave;
    pm2h::cli::main(args);
    drop(leave);
    println!("PM2H-DONE");
    proc_macro::TokenStream::new()
}

/// Where the tokens between the delimiters are, as one line of the file PM2H_OUT.
#[proc_macro]
pub fn at(input: proc_macro::TokenStream) -> proc_macro::TokenStream {
    pm2h::pm::at(input);
    proc_macro::TokenStream::new()
}
