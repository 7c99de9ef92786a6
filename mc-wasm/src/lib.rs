//! `see` tells what this build of the library sees of a file.
#[allow(dead_code)]
#[path = "../../mc-grib/src/obs.rs"]
mod obs;

#[no_mangle]
pub extern "C" fn room(n: usize) -> *mut u8 {
    Box::leak(vec![0u8; n].into_boxed_slice()).as_mut_ptr()
}

/// Takes the file at `p`, gives the place of a text that its length in 4 octets precedes.
#[no_mangle]
pub extern "C" fn see(p: *mut u8, n: usize) -> *mut u8 {
    // made by `room`
    let f = unsafe { Vec::from_raw_parts(p, n, n) };
    let t = match obs::open_and_observe(&f) {
        Err(e) => e,
        Ok(mut o) => {
            obs::mask(&f, &mut o, true, true);
            format!("{o:?}")
        }
    };
    let mut b = (t.len() as u32).to_le_bytes().to_vec();
    b.extend(t.as_bytes());
    Box::leak(b.into_boxed_slice()).as_mut_ptr()
}

#[no_mangle]
pub extern "C" fn done(p: *mut u8, n: usize) {
    // made by `see`
    drop(unsafe { Vec::from_raw_parts(p, n + 4, n + 4) });
}
