//! User program over the public API of aes_crypto, one exported function per API call, all with the same
//! signature: `i` input bytes, `o` output bytes, (`p`, `n`) a slice.  The verifier takes these as entry points;
//! the replay driver calls the very same functions natively.  Nothing here contains cryptographic logic.
#![no_std]
#![allow(unused_macros, clippy::all, internal_features)]
#![cfg_attr(driver, no_main)]
#![cfg_attr(driver, feature(asm_experimental_arch))]

extern crate aes_crypto;
use aes_crypto::*;
use core::fmt::Write;
use core::slice::{from_raw_parts, from_raw_parts_mut};

#[inline(always)]
unsafe fn rd<const N: usize>(i: *const u8, off: usize) -> [u8; N] {
    *(i.add(off) as *const [u8; N])
}
#[inline(always)]
unsafe fn wr<const N: usize>(o: *mut u8, off: usize, v: [u8; N]) {
    *(o.add(off) as *mut [u8; N]) = v;
}

pub type Probe = unsafe extern "C" fn(*const u8, *mut u8, *mut u8, usize) -> usize;
pub struct Entry {
    pub name: &'static str,
    pub f: Probe,
}

macro_rules! probes {
    ($( $name:ident ($i:ident, $o:ident, $p:ident, $n:ident) $body:block )*) => {
        $(
            #[no_mangle]
            #[allow(unused_variables)]
            pub unsafe extern "C" fn $name($i: *const u8, $o: *mut u8, $p: *mut u8, $n: usize) -> usize { $body }
        )*
        #[allow(dead_code)]
        const TABLE: &[Entry] = &[ $( Entry { name: stringify!($name), f: $name } ),* ];
    };
}

#[cfg(not(driver))]
extern "C" {
    fn verif_emit(p: *const u8, n: usize);
}
#[cfg(driver)]
unsafe fn verif_emit(p: *const u8, n: usize) {
    driver::emit(p, n)
}

struct Sink;
impl Write for Sink {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        unsafe { verif_emit(s.as_ptr(), s.len()) };
        Ok(())
    }
}

/// takes the first bytes up to its capacity, then reports an error
struct Full(usize);
impl Write for Full {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        let k = if s.len() < self.0 { s.len() } else { self.0 };
        unsafe { verif_emit(s.as_ptr(), k) };
        self.0 -= k;
        if k < s.len() { Err(core::fmt::Error) } else { Ok(()) }
    }
}

macro_rules! show {
    ($cap:literal, $fmt:literal, $e:expr) => {{
        match write!(Full($cap), $fmt, $e) {
            Ok(()) => 0,
            Err(_) => 1,
        }
    }};
    ($fmt:literal, $e:expr) => {{
        match write!(Sink, $fmt, $e) {
            Ok(()) => 0,
            Err(_) => 1,
        }
    }};
}

type B1 = AesBlock;
type B2 = AesBlockX2;
type B4 = AesBlockX4;

macro_rules! block_mod {
    ($m:ident, $t:ty, $n:literal) => {
        #[allow(non_snake_case)]
        mod $m {
            use super::*;
            #[inline(always)]
            pub unsafe fn ld(i: *const u8, k: usize) -> $t {
                <$t>::from(rd::<$n>(i, k * $n))
            }
            #[inline(always)]
            pub unsafe fn st(o: *mut u8, k: usize, v: $t) {
                wr::<$n>(o, k * $n, v.into())
            }
        }
    };
}
block_mod!(b1, B1, 16);
block_mod!(b2, B2, 32);
block_mod!(b4, B4, 64);

macro_rules! with_blocks {
    ($( $suffix:ident $m:ident $t:ty, $n:literal : $new:ident $arr:ident $rf:ident $tr:ident $store:ident $and:ident $or:ident $xor:ident $not:ident
        $anda:ident $ora:ident $xora:ident $eq:ident $ne:ident $isz:ident $zero:ident $dflt:ident $enc:ident $dec:ident $encl:ident $decl:ident
        $che:ident $chd:ident $rep:ident $unrep:ident $clone:ident ; )*) => {
        $(
        probes_block!{ $m $t, $n : $new $arr $rf $tr $store $and $or $xor $not $anda $ora $xora $eq $ne $isz $zero $dflt $enc $dec $encl $decl $che $chd $rep $unrep $clone }
        )*
    };
}
macro_rules! probes_block {
    ($m:ident $t:ty, $n:literal : $new:ident $arr:ident $rf:ident $tr:ident $store:ident $and:ident $or:ident $xor:ident $not:ident
        $anda:ident $ora:ident $xora:ident $eq:ident $ne:ident $isz:ident $zero:ident $dflt:ident $enc:ident $dec:ident $encl:ident $decl:ident
        $che:ident $chd:ident $rep:ident $unrep:ident $clone:ident) => {
        mod $clone {
        use super::*;
        probes! {
            $new(i, o, p, n) { let mut b = [0u8; $n]; <$t>::new(rd::<$n>(i, 0)).store_to(&mut b); wr(o, 0, b); 0 }
            $arr(i, o, p, n) { let b: [u8; $n] = <$t>::from(rd::<$n>(i, 0)).into(); wr(o, 0, b); 0 }
            $rf(i, o, p, n) { let a = rd::<$n>(i, 0); $m::st(o, 0, <$t>::from(&a)); 0 }
            $tr(i, o, p, n) {
                match <$t>::try_from(from_raw_parts(p as *const u8, n)) {
                    Ok(b) => { $m::st(o, 0, b); usize::MAX }
                    Err(e) => e,
                }
            }
            $store(i, o, p, n) { $m::ld(i, 0).store_to(from_raw_parts_mut(p, n)); 0 }
            $and(i, o, p, n) { $m::st(o, 0, $m::ld(i, 0) & $m::ld(i, 1)); 0 }
            $or(i, o, p, n) { $m::st(o, 0, $m::ld(i, 0) | $m::ld(i, 1)); 0 }
            $xor(i, o, p, n) { $m::st(o, 0, $m::ld(i, 0) ^ $m::ld(i, 1)); 0 }
            $not(i, o, p, n) { $m::st(o, 0, !$m::ld(i, 0)); 0 }
            $anda(i, o, p, n) { let mut a = $m::ld(i, 0); a &= $m::ld(i, 1); $m::st(o, 0, a); 0 }
            $ora(i, o, p, n) { let mut a = $m::ld(i, 0); a |= $m::ld(i, 1); $m::st(o, 0, a); 0 }
            $xora(i, o, p, n) { let mut a = $m::ld(i, 0); a ^= $m::ld(i, 1); $m::st(o, 0, a); 0 }
            $eq(i, o, p, n) { ($m::ld(i, 0) == $m::ld(i, 1)) as usize }
            $ne(i, o, p, n) { ($m::ld(i, 0) != $m::ld(i, 1)) as usize }
            $isz(i, o, p, n) { $m::ld(i, 0).is_zero() as usize }
            $zero(i, o, p, n) { $m::st(o, 0, <$t>::zero()); 0 }
            $dflt(i, o, p, n) { $m::st(o, 0, <$t>::default()); 0 }
            $enc(i, o, p, n) { $m::st(o, 0, $m::ld(i, 0).enc($m::ld(i, 1))); 0 }
            $dec(i, o, p, n) { $m::st(o, 0, $m::ld(i, 0).dec($m::ld(i, 1))); 0 }
            $encl(i, o, p, n) { $m::st(o, 0, $m::ld(i, 0).enc_last($m::ld(i, 1))); 0 }
            $decl(i, o, p, n) { $m::st(o, 0, $m::ld(i, 0).dec_last($m::ld(i, 1))); 0 }
            $che(i, o, p, n) { $m::st(o, 0, $m::ld(i, 0).chain_enc(from_raw_parts(p as *const $t, n))); 0 }
            $chd(i, o, p, n) { $m::st(o, 0, $m::ld(i, 0).chain_dec(from_raw_parts(p as *const $t, n))); 0 }
            $rep(i, o, p, n) { (o as *mut $t).write_unaligned($m::ld(i, 0)); core::mem::size_of::<$t>() }
            $unrep(i, o, p, n) { $m::st(o, 0, (i as *const $t).read_unaligned()); 0 }
            $clone(i, o, p, n) { let a = $m::ld(i, 0); let mut c = $m::ld(i, 1); c.clone_from(&a); $m::st(o, 0, a.clone()); $m::st(o, 1, a); $m::st(o, 2, c); 0 }
        }
        #[allow(dead_code)]
        pub const T: &[Entry] = TABLE;
        }
    };
}
with_blocks! {
    b1 b1 B1, 16 : new_1 arr_1 ref_1 try_1 store_1 and_1 or_1 xor_1 not_1 anda_1 ora_1 xora_1 eq_1 ne_1 isz_1 zero_1 dflt_1 enc_1 dec_1 encl_1 decl_1 che_1 chd_1 rep_1 unrep_1 clone_1;
    b2 b2 B2, 32 : new_2 arr_2 ref_2 try_2 store_2 and_2 or_2 xor_2 not_2 anda_2 ora_2 xora_2 eq_2 ne_2 isz_2 zero_2 dflt_2 enc_2 dec_2 encl_2 decl_2 che_2 chd_2 rep_2 unrep_2 clone_2;
    b4 b4 B4, 64 : new_4 arr_4 ref_4 try_4 store_4 and_4 or_4 xor_4 not_4 anda_4 ora_4 xora_4 eq_4 ne_4 isz_4 zero_4 dflt_4 enc_4 dec_4 encl_4 decl_4 che_4 chd_4 rep_4 unrep_4 clone_4;
}

mod conv {
    use super::*;
    probes! {
        mc_1(i, o, p, n) { b1::st(o, 0, b1::ld(i, 0).mc()); 0 }
        imc_1(i, o, p, n) { b1::st(o, 0, b1::ld(i, 0).imc()); 0 }
        // u128 values cross the interface as little-endian byte strings built arithmetically
        to_u128(i, o, p, n) {
            let v: u128 = b1::ld(i, 0).into();
            let mut k = 0;
            while k < 16 { *o.add(k) = (v >> (8 * k)) as u8; k += 1; }
            0
        }
        from_u128(i, o, p, n) {
            let mut v = 0u128;
            let mut k = 0;
            while k < 16 { v |= (*i.add(k) as u128) << (8 * k); k += 1; }
            b1::st(o, 0, AesBlock::from(v)); 0
        }
        x2_of_pair(i, o, p, n) { b2::st(o, 0, AesBlockX2::from((b1::ld(i, 0), b1::ld(i, 1)))); 0 }
        x2_of_b(i, o, p, n) { b2::st(o, 0, AesBlockX2::from(b1::ld(i, 0))); 0 }
        x2_to_pair(i, o, p, n) { let (a, b) = b2::ld(i, 0).into(); b1::st(o, 0, a); b1::st(o, 1, b); 0 }
        x4_of_quad(i, o, p, n) { b4::st(o, 0, AesBlockX4::from((b1::ld(i, 0), b1::ld(i, 1), b1::ld(i, 2), b1::ld(i, 3)))); 0 }
        x4_of_pair(i, o, p, n) { b4::st(o, 0, AesBlockX4::from((b2::ld(i, 0), b2::ld(i, 1)))); 0 }
        x4_of_b(i, o, p, n) { b4::st(o, 0, AesBlockX4::from(b1::ld(i, 0))); 0 }
        x4_of_x2(i, o, p, n) { b4::st(o, 0, AesBlockX4::from(b2::ld(i, 0))); 0 }
        x4_to_quad(i, o, p, n) {
            let (a, b, c, d): (AesBlock, AesBlock, AesBlock, AesBlock) = b4::ld(i, 0).into();
            b1::st(o, 0, a); b1::st(o, 1, b); b1::st(o, 2, c); b1::st(o, 3, d); 0
        }
        x4_to_pair(i, o, p, n) { let (a, b): (AesBlockX2, AesBlockX2) = b4::ld(i, 0).into(); b2::st(o, 0, a); b2::st(o, 1, b); 0 }
        // formatting
        f_debug_1(i, o, p, n) { show!("{:?}", b1::ld(i, 0)) }
        f_debugalt_1(i, o, p, n) { show!("{:#?}", b1::ld(i, 0)) }
        f_display_1(i, o, p, n) { show!("{}", b1::ld(i, 0)) }
        f_displayalt_1(i, o, p, n) { show!("{:#}", b1::ld(i, 0)) }
        f_lhex_1(i, o, p, n) { show!("{:x}", b1::ld(i, 0)) }
        f_lhexalt_1(i, o, p, n) { show!("{:#x}", b1::ld(i, 0)) }
        f_uhex_1(i, o, p, n) { show!("{:X}", b1::ld(i, 0)) }
        f_uhexalt_1(i, o, p, n) { show!("{:#X}", b1::ld(i, 0)) }
        f_bin_1(i, o, p, n) { show!("{:b}", b1::ld(i, 0)) }
        f_binalt_1(i, o, p, n) { show!("{:#b}", b1::ld(i, 0)) }
        f_debug_2(i, o, p, n) { show!("{:?}", b2::ld(i, 0)) }
        f_debug_4(i, o, p, n) { show!("{:?}", b4::ld(i, 0)) }
        // into a sink that fills up
        w_debug_1(i, o, p, n) { show!(17, "{:?}", b1::ld(i, 0)) }
        w_display_1(i, o, p, n) { show!(30, "{}", b1::ld(i, 0)) }
        w_displayalt_1(i, o, p, n) { show!(0, "{:#}", b1::ld(i, 0)) }
        w_lhex_1(i, o, p, n) { show!(31, "{:x}", b1::ld(i, 0)) }
        w_lhexalt_1(i, o, p, n) { show!(1, "{:#x}", b1::ld(i, 0)) }
        w_uhex_1(i, o, p, n) { show!(8, "{:X}", b1::ld(i, 0)) }
        w_uhexalt_1(i, o, p, n) { show!(1, "{:#X}", b1::ld(i, 0)) }
        w_bin_1(i, o, p, n) { show!(124, "{:b}", b1::ld(i, 0)) }
        w_binalt_1(i, o, p, n) { show!(1, "{:#b}", b1::ld(i, 0)) }
        w_debug_2(i, o, p, n) { show!(36, "{:?}", b2::ld(i, 0)) }
        w_debug_4(i, o, p, n) { show!(130, "{:?}", b4::ld(i, 0)) }
        f_debugalt_2(i, o, p, n) { show!("{:#?}", b2::ld(i, 0)) }
        f_debugalt_4(i, o, p, n) { show!("{:#?}", b4::ld(i, 0)) }
    }
    #[allow(dead_code)]
    pub const T: &[Entry] = TABLE;
}

macro_rules! cipher {
    ($m:ident $e:ident $d:ident $k:literal : $e1:ident $e2:ident $e4:ident $d1:ident $d2:ident $d4:ident
     $ed1:ident $de1:ident $ede1:ident $ded1:ident $rt:ident $tr:ident
     $ee1:ident $dd1:ident $eu:ident $du:ident
     $fe:ident $fd:ident $fed:ident $fde:ident $fede:ident $fded:ident $fec:ident $fdc:ident $fef:ident $fdf:ident $fea:ident $fda:ident $we:ident $wd:ident) => {
        mod $m {
            use super::*;
            unsafe fn enc(i: *const u8) -> $e { $e::from(rd::<$k>(i, 0)) }
            unsafe fn dec(i: *const u8) -> $d { $d::from(rd::<$k>(i, 0)) }
            probes! {
                $e1(i, o, p, n) { b1::st(o, 0, enc(i).encrypt_block(b1::ld(i.add($k), 0))); 0 }
                $e2(i, o, p, n) { b2::st(o, 0, enc(i).encrypt_2_blocks(b2::ld(i.add($k), 0))); 0 }
                $e4(i, o, p, n) { b4::st(o, 0, enc(i).encrypt_4_blocks(b4::ld(i.add($k), 0))); 0 }
                $d1(i, o, p, n) { b1::st(o, 0, dec(i).decrypt_block(b1::ld(i.add($k), 0))); 0 }
                $d2(i, o, p, n) { b2::st(o, 0, dec(i).decrypt_2_blocks(b2::ld(i.add($k), 0))); 0 }
                $d4(i, o, p, n) { b4::st(o, 0, dec(i).decrypt_4_blocks(b4::ld(i.add($k), 0))); 0 }
                // conversions between key objects, observed by use
                $ed1(i, o, p, n) { b1::st(o, 0, enc(i).decrypter().decrypt_block(b1::ld(i.add($k), 0))); 0 }
                $de1(i, o, p, n) { b1::st(o, 0, dec(i).encrypter().encrypt_block(b1::ld(i.add($k), 0))); 0 }
                $ede1(i, o, p, n) { b1::st(o, 0, enc(i).decrypter().encrypter().encrypt_block(b1::ld(i.add($k), 0))); 0 }
                $ded1(i, o, p, n) { b1::st(o, 0, dec(i).encrypter().decrypter().decrypt_block(b1::ld(i.add($k), 0))); 0 }
                // decrypt(encrypt(x)) and encrypt(decrypt(x))
                $rt(i, o, p, n) { let e = enc(i); let d = dec(i); b1::st(o, 0, d.decrypt_block(e.encrypt_block(b1::ld(i.add($k), 0)))); 0 }
                $tr(i, o, p, n) { let e = enc(i); let d = dec(i); b1::st(o, 0, e.encrypt_block(d.decrypt_block(b1::ld(i.add($k), 0)))); 0 }
                // clones by use, and the original after conversion
                $ee1(i, o, p, n) { b1::st(o, 0, enc(i).clone().encrypt_block(b1::ld(i.add($k), 0))); 0 }
                $dd1(i, o, p, n) { b1::st(o, 0, dec(i).clone().decrypt_block(b1::ld(i.add($k), 0))); 0 }
                $eu(i, o, p, n) { let e = enc(i); let d = e.decrypter(); let c = e.clone(); b1::st(o, 0, e.encrypt_block(b1::ld(i.add($k), 0))); let _ = (d, c); 0 }
                $du(i, o, p, n) { let d = dec(i); let e = d.encrypter(); let c = d.clone(); b1::st(o, 0, d.decrypt_block(b1::ld(i.add($k), 0))); let _ = (e, c); 0 }
                // the round keys held, as the debug output shows them: objects made from the key, by conversion, by cloning
                $fe(i, o, p, n) { show!("{:?}", enc(i)) }
                $fd(i, o, p, n) { show!("{:?}", dec(i)) }
                $fed(i, o, p, n) { show!("{:?}", enc(i).decrypter()) }
                $fde(i, o, p, n) { show!("{:?}", dec(i).encrypter()) }
                $fede(i, o, p, n) { show!("{:?}", enc(i).decrypter().encrypter()) }
                $fded(i, o, p, n) { show!("{:?}", dec(i).encrypter().decrypter()) }
                $fec(i, o, p, n) { show!("{:?}", enc(i).clone()) }
                $fdc(i, o, p, n) { show!("{:?}", dec(i).clone()) }
                // overwritten by a clone of an object with another key; the alternate debug form
                $fef(i, o, p, n) { let mut e = $e::from(rd::<$k>(i, $k)); e.clone_from(&enc(i)); show!("{:?}", e) }
                $fdf(i, o, p, n) { let mut d = $d::from(rd::<$k>(i, $k)); d.clone_from(&dec(i)); show!("{:?}", d) }
                $fea(i, o, p, n) { show!("{:#?}", enc(i)) }
                $fda(i, o, p, n) { show!("{:#?}", dec(i)) }
                $we(i, o, p, n) { show!(300, "{:?}", enc(i)) }
                $wd(i, o, p, n) { show!(200, "{:?}", dec(i)) }
            }
            #[allow(dead_code)]
            pub const T: &[Entry] = TABLE;
        }
    };
}
cipher!(c16 Aes128Enc Aes128Dec 16 : e1_16 e2_16 e4_16 d1_16 d2_16 d4_16 ed1_16 de1_16 ede1_16 ded1_16 rt_16 tr_16 ee1_16 dd1_16 eu_16 du_16
    fe_16 fd_16 fed_16 fde_16 fede_16 fded_16 fec_16 fdc_16 fef_16 fdf_16 fea_16 fda_16 we_16 wd_16);
cipher!(c24 Aes192Enc Aes192Dec 24 : e1_24 e2_24 e4_24 d1_24 d2_24 d4_24 ed1_24 de1_24 ede1_24 ded1_24 rt_24 tr_24 ee1_24 dd1_24 eu_24 du_24
    fe_24 fd_24 fed_24 fde_24 fede_24 fded_24 fec_24 fdc_24 fef_24 fdf_24 fea_24 fda_24 we_24 wd_24);
cipher!(c32 Aes256Enc Aes256Dec 32 : e1_32 e2_32 e4_32 d1_32 d2_32 d4_32 ed1_32 de1_32 ede1_32 ded1_32 rt_32 tr_32 ee1_32 dd1_32 eu_32 du_32
    fe_32 fd_32 fed_32 fde_32 fede_32 fded_32 fec_32 fdc_32 fef_32 fdf_32 fea_32 fda_32 we_32 wd_32);

#[cfg(driver)]
mod driver;
