//! the declarations of zil.h
use libc::{c_char, c_void};
pub type Z = *mut c_void;
pub type S = *mut c_void;
#[repr(C)]
#[derive(Copy, Clone, Debug, PartialEq)]
pub struct Meta {
    pub width: u32,
    pub height: u32,
    pub depth: u32,
    pub colorspace: u32,
    pub format: u32,
}
extern "C" {
    pub fn zil_free(p: *mut c_void);
    pub fn zil_free_and_null(p: *mut *mut c_void);
    pub fn zil_malloc(n: usize) -> *mut c_void;
    pub fn zil_guess_format(b: *const u8, n: usize) -> u32;
    pub fn zil_imdepth_new() -> u32;
    pub fn zil_imdecode(i: *const u8, n: usize, w: *mut usize, h: *mut usize, d: *mut u32, c: *mut usize, s: S) -> *const c_char;
    pub fn zil_imdecode_into(i: *const u8, n: usize, o: *mut u8, on: usize, w: *mut usize, h: *mut usize, d: *mut u32, c: *mut usize, s: S);
    pub fn zil_imread(f: *const c_char, w: *mut usize, h: *mut usize, d: *mut u32, c: *mut usize, s: S) -> *const c_char;
    pub fn zil_imread_into(f: *const c_char, o: *mut u8, on: usize, w: *mut usize, h: *mut usize, d: *mut u32, c: *mut usize, s: S);
    pub fn zil_read_headers_from_file(f: *const c_char, s: S) -> Meta;
    pub fn zil_read_headers_from_memory(i: *const u8, n: usize, s: S) -> Meta;
    pub fn zil_status_code(s: S) -> u32;
    pub fn zil_status_free(s: S);
    pub fn zil_status_message(s: S) -> *const c_char;
    pub fn zil_status_new() -> S;
    pub fn zil_status_ok(s: S) -> bool;
    pub fn zil_zimg_clone(z: Z) -> Z;
    pub fn zil_zimg_colorspace(z: Z, s: S) -> u32;
    pub fn zil_zimg_depth(z: Z, s: S) -> u32;
    pub fn zil_zimg_width(z: Z, s: S) -> usize;
    pub fn zil_zimg_height(z: Z, s: S) -> usize;
    pub fn zil_zimg_get_out_buffer_size(z: Z, s: S) -> usize;
    pub fn zil_zimg_free(z: Z);
    pub fn zil_zimg_from_u8(p: *const u8, n: usize, w: usize, h: usize, c: u32) -> Z;
    pub fn zil_zimg_from_u16(p: *const u16, n: usize, w: usize, h: usize, c: u32) -> Z;
    pub fn zil_zimg_from_f32(p: *const f32, n: usize, w: usize, h: usize, c: u32) -> Z;
    pub fn zil_zimg_new() -> Z;
    pub fn zil_zimg_open(f: *const c_char, z: Z, s: S);
    pub fn zil_zimg_read_from_memory(i: *const u8, n: usize, z: Z, s: S);
    pub fn zil_zimg_write_to_disk(f: *const c_char, z: Z, s: S);
    pub fn zil_zimg_write_to_disk_with_format(f: *const c_char, z: Z, format: u32, s: S);
    pub fn zil_zimg_write_to_output(z: Z, o: *mut u8, n: usize, s: S) -> usize;
    pub fn zil_imgproc_adjust_contrast(z: Z, v: f32, s: S);
    pub fn zil_imgproc_auto_orient(z: Z, s: S);
    pub fn zil_imgproc_bilateral_filter(z: Z, d: i32, c: f32, x: f32, s: S);
    pub fn zil_imgproc_blend(a: Z, b: Z, v: f32, s: S);
    pub fn zil_imgproc_brighten(z: Z, v: f32, s: S);
    pub fn zil_imgproc_change_depth(z: Z, d: u32, s: S);
    pub fn zil_imgproc_convert_colorspace(z: Z, c: u32, s: S);
    pub fn zil_imgproc_crop(z: Z, w: usize, h: usize, x: usize, y: usize, s: S);
    pub fn zil_imgproc_exposure(z: Z, e: f32, b: f32, s: S);
    pub fn zil_imgproc_flip_mirror_x_axis(z: Z, s: S);
    pub fn zil_imgproc_flip_horizontal(z: Z, s: S);
    pub fn zil_imgproc_gamma(z: Z, v: f32, s: S);
    pub fn zil_imgproc_gaussian_blur(z: Z, v: f32, s: S);
    pub fn zil_imgproc_invert(z: Z, s: S);
    pub fn zil_imgproc_median_blur(z: Z, r: usize, s: S);
    pub fn zil_imgproc_scharr(z: Z, s: S);
    pub fn zil_imgproc_sobel(z: Z, s: S);
    pub fn zil_imgproc_stretch_contrast(z: Z, l: f32, h: f32, s: S);
    pub fn zil_imgproc_transpose(z: Z, s: S);
}
