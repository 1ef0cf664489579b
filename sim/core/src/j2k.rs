//! Lossless JPEG 2000 code streams of one grey component (encoder side of openjpeg).
use openjpeg_sys as opj;
use std::os::raw::c_void;

unsafe extern "C" fn wr(buf: *mut c_void, n: usize, user: *mut c_void) -> usize {
    let (v, pos) = &mut *(user as *mut (Vec<u8>, usize));
    if v.len() < *pos + n {
        v.resize(*pos + n, 0);
    }
    std::ptr::copy_nonoverlapping(buf as *const u8, v.as_mut_ptr().add(*pos), n);
    *pos += n;
    n
}
unsafe extern "C" fn skip(n: i64, user: *mut c_void) -> i64 {
    let (_, pos) = &mut *(user as *mut (Vec<u8>, usize));
    *pos = (*pos as i64 + n) as usize;
    n
}
unsafe extern "C" fn seek(n: i64, user: *mut c_void) -> i32 {
    let (_, pos) = &mut *(user as *mut (Vec<u8>, usize));
    *pos = n as usize;
    1
}

/// The encoder's buffer estimate fails on incompressible shallow images; a deeper nominal precision avoids that.
pub fn encode(xs: &[u64], w: usize, h: usize, nbit: u8) -> Vec<u8> {
    (nbit + 4..nbit + 10).find_map(|prec| encode_with(xs, w, h, prec)).unwrap_or_else(|| panic!("openjpeg encoder failed {w}x{h} {nbit} bits"))
}

fn encode_with(xs: &[u64], w: usize, h: usize, nbit: u8) -> Option<Vec<u8>> {
    assert_eq!(xs.len(), w * h);
    unsafe {
        let mut par = std::mem::zeroed::<opj::opj_cparameters_t>();
        opj::opj_set_default_encoder_parameters(&mut par);
        par.tcp_numlayers = 1;
        par.cp_disto_alloc = 1;
        par.tcp_rates[0] = 0.0;
        par.irreversible = 0;
        let mut nres = 1;
        while nres < 6 && (w.min(h) >> nres) > 0 {
            nres += 1;
        }
        par.numresolution = nres;
        let mut cp = std::mem::zeroed::<opj::opj_image_cmptparm_t>();
        cp.dx = 1;
        cp.dy = 1;
        cp.w = w as u32;
        cp.h = h as u32;
        cp.prec = nbit.into();
        cp.sgnd = 0;
        let img = opj::opj_image_create(1, &mut cp, opj::OPJ_COLOR_SPACE::OPJ_CLRSPC_GRAY);
        (*img).x1 = w as u32;
        (*img).y1 = h as u32;
        let comp = (*img).comps;
        for (i, x) in xs.iter().enumerate() {
            *(*comp).data.add(i) = *x as i32;
        }
        let codec = opj::opj_create_compress(opj::OPJ_CODEC_FORMAT::OPJ_CODEC_J2K);
        let ok1 = opj::opj_setup_encoder(codec, &mut par, img);
        let st = opj::opj_stream_default_create(0);
        let mut out: Box<(Vec<u8>, usize)> = Box::new((Vec::new(), 0));
        opj::opj_stream_set_write_function(st, Some(wr));
        opj::opj_stream_set_skip_function(st, Some(skip));
        opj::opj_stream_set_seek_function(st, Some(seek));
        opj::opj_stream_set_user_data(st, &mut *out as *mut _ as *mut c_void, None);
        let ok2 = opj::opj_start_compress(codec, img, st);
        let ok3 = opj::opj_encode(codec, st);
        let ok4 = opj::opj_end_compress(codec, st);
        opj::opj_stream_destroy(st);
        opj::opj_destroy_codec(codec);
        opj::opj_image_destroy(img);
        (ok1 == 1 && ok2 == 1 && ok3 == 1 && ok4 == 1).then_some(out.0)
    }
}
