//! The program's own `main`, as a library.
include!("/repo/bin/main.rs");

pub fn entry() {
    main()
}
