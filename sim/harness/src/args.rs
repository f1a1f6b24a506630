//! The program under test reads its command line from the process. Simulated
//! programs get theirs by exchanging the strings `std::env::args` hands out.
use std::ffi::CString;
use std::os::raw::c_char;
use std::os::raw::c_int;
use std::os::unix::process::CommandExt;

const ROOM: usize = 48;
static mut ARGV: (c_int, *mut *mut c_char) = (0, std::ptr::null_mut());

extern "C" fn remember(argc: c_int, argv: *mut *mut c_char, _env: *const *const c_char) {
    unsafe { ARGV = (argc, argv) }
}

#[used]
#[link_section = ".init_array"]
static REMEMBER: extern "C" fn(c_int, *mut *mut c_char, *const *const c_char) = remember;

/// Start again with enough empty arguments to be replaced later; returns the
/// arguments proper.
pub fn make_room() -> Vec<String> {
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() < ROOM {
        let exe = std::env::current_exe().expect("own path");
        let pad = vec![String::new(); ROOM - args.len()];
        let e = std::process::Command::new(exe).args(&args[1..]).args(pad).exec();
        panic!("cannot start again: {e}");
    }
    while args.last().is_some_and(|a| a.is_empty()) {
        args.pop();
    }
    args
}

/// From now on this is the command line of the process.
pub fn set(args: &[String]) {
    unsafe {
        let (argc, argv) = ARGV;
        assert!((args.len() as c_int) < argc, "too many arguments");
        for (i, a) in args.iter().enumerate() {
            *argv.add(i) = CString::new(a.as_str()).unwrap().into_raw();
        }
        for i in args.len()..argc as usize {
            *argv.add(i) = std::ptr::null_mut();
        }
    }
    assert_eq!(std::env::args().collect::<Vec<_>>(), args);
}
