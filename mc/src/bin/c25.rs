//! C25: WAV decoding.
use std::sync::atomic::Ordering::SeqCst;

use essay_tensor::io::decode_wav;
use essay_tensor::tensor::Tensor;
use mc::*;

#[global_allocator]
static A: calloc::Checking = calloc::Checking;

#[derive(Clone, Debug, Hash)]
struct Wav {
    channels: u16,
    rate: u32,
    data: Vec<u8>,
    trailer: usize,
}

impl Wav {
    fn bytes(&self) -> Vec<u8> {
        let mut v = Vec::new();
        v.extend(b"RIFF");
        v.extend(((36 + self.data.len() + self.trailer) as u32).to_le_bytes());
        v.extend(b"WAVEfmt ");
        v.extend(16u32.to_le_bytes());
        v.extend(1u16.to_le_bytes());
        v.extend(self.channels.to_le_bytes());
        v.extend(self.rate.to_le_bytes());
        v.extend(self.rate.wrapping_mul(2 * self.channels as u32).to_le_bytes());
        v.extend((2u16.wrapping_mul(self.channels)).to_le_bytes());
        v.extend(16u16.to_le_bytes());
        v.extend(b"data");
        v.extend((self.data.len() as u32).to_le_bytes());
        v.extend(&self.data);
        v.extend((0..self.trailer).map(|i| 0x51 + i as u8));
        v
    }
}

fn pcm(n: usize, k: usize) -> Vec<u8> {
    (0..n).flat_map(|i| ((i * 7919 + k * 257) as u16).to_le_bytes()).collect()
}

/// What the bytes mean: None when they must be refused.
/// `lenient`: the redundant fields disagree, so refusing is allowed as well.
fn meaning(b: &[u8]) -> (Option<(Vec<usize>, Vec<f32>, usize)>, bool) {
    let no = (None, false);
    let u16at = |i: usize| b[i] as usize | (b[i + 1] as usize) << 8;
    let u32at = |i: usize| u16at(i) | u16at(i + 2) << 16;
    if b.len() < 44 || &b[..4] != b"RIFF" || u32at(4) != b.len() - 8 || &b[8..16] != b"WAVEfmt " || u32at(16) != 16 {
        return no;
    }
    let (fmt, ch, rate, brate, align, bits) = (u16at(20), u16at(22), u32at(24), u32at(28), u16at(32), u16at(34));
    let size = u32at(40);
    if fmt != 1 || bits != 16 || &b[36..40] != b"data" || size > b.len() - 44 || ch == 0 || size % (2 * ch) != 0 {
        return no;
    }
    let data = b[44..44 + size].chunks(2).map(|c| i16::from_le_bytes([c[0], c[1]]) as f32 / 32768.).collect();
    let lenient = align != (2 * ch) & 0xffff || brate != (rate * 2 * ch) & 0xffff_ffff;
    (Some((vec![size / 2 / ch, ch], data, rate)), lenient)
}

fn one(c: &mut Ctx, b: &[u8], form: usize) -> R {
    c.tick();
    let (want, lenient) = meaning(b);
    calloc::PEAK_REQUEST.store(0, SeqCst);
    let got = catch(|| match form {
        0 => decode_wav(b),
        1 => decode_wav(b.to_vec()),
        2 => decode_wav(&Tensor::from(b)),
        3 => {
            // a window of a longer buffer
            let mut v = vec![0xEE; 5];
            v.extend(b);
            v.extend([0xEE; 9]);
            let n = v.len();
            let t = Tensor::from_vec(v, [n]);
            decode_wav(t.subslice_flat(5, b.len(), [b.len()]))
        }
        _ => {
            let n = b.len();
            decode_wav(Tensor::from_vec(b.to_vec(), [1, n]))
        }
    });
    let peak = calloc::PEAK_REQUEST.load(SeqCst);
    if peak > 16 * b.len() + 8192 {
        return Err(format!("requested {peak} bytes of memory for {} bytes of input", b.len()));
    }
    c.outcome(&(want.is_some(), got.is_ok()));
    match (want, got) {
        (None, Err(_)) => Ok(()),
        (None, Ok((t, r))) => Err(format!("accepted with dimensions {:?}, rate {:?}", dims_of(&t), r)),
        (Some(_), Err(_)) if lenient => Ok(()),
        (Some(_), Err(e)) => Err(format!("refused: {e}")),
        (Some((dims, data, rate)), Ok((t, r))) => {
            ctx_err("samples", same_by(&t, &dims, &data, |a, b| feq(*a, *b)))?;
            ctx_err("rate", same(&r, &M::new(&[], vec![rate])))
        }
    }
}

fn main() {
    run("c25", |c| {
        // every sample value, in every channel layout up to 4
        for ch in 1..=4u16 {
            c.case("all sample values", || format!("{ch} channels"), |c| {
                let mut data: Vec<u8> = (0..=u16::MAX).flat_map(|v| v.to_le_bytes()).collect();
                while data.len() % (2 * ch as usize) != 0 { data.extend([0x34, 0x12]); }
                one(c, &Wav { channels: ch, rate: 44100, data, trailer: 0 }.bytes(), 0)
            });
        }
        // frames x channels
        let chans: Vec<u16> = (1..=c.pick(12, 40)).chain([16, 31, 32, 33, 64, 127, 128, 255, 256, 257, 1000, 32767, 32768, 65535]).collect();
        for ch in chans {
            for frames in (0..=c.pick(9, 40)).chain([63, 64, 65, 100, 255, 256, 257]) {
                if frames * ch as usize > c.pick(200_000, 5_000_000) { continue; }
                for trailer in [0usize, 1, 2, 8] {
                    for form in 0..5 {
                        if form > 0 && (frames > 9 || ch > 4) { continue; }
                        let w = Wav { channels: ch, rate: 8000 + frames as u32, data: pcm(frames * ch as usize, form), trailer };
                        c.case("frames and channels", || format!("{frames} frames, {ch} channels, {trailer} trailing bytes, form {form}"), |c| {
                            c.state(&(frames, ch, trailer, form));
                            one(c, &w.bytes(), form)
                        });
                    }
                }
            }
        }
        for frames in c.pick(vec![65535, 65536, 65537, 131072], vec![65535, 65536, 65537, 131072, 1 << 20, (1 << 24) + 1]) {
            for ch in [1u16, 2] {
                c.case("long", || format!("{frames} frames, {ch} channels"), |c| {
                    c.state(&(frames, ch));
                    one(c, &Wav { channels: ch, rate: 1, data: pcm(frames * ch as usize, 0), trailer: 0 }.bytes(), 0)
                });
            }
        }
        // sample rates
        for rate in (0..=c.pick(300u32, 70_000)).chain([8000, 11025, 22050, 44100, 48000, 65535, 65536, 65537, 96000, 192_000, 0x7fff_ffff, 0x8000_0000, u32::MAX]) {
            c.case("rates", || format!("rate {rate}"), |c| {
                c.state(&("rate", rate));
                one(c, &Wav { channels: 2, rate, data: pcm(4, 0), trailer: 0 }.bytes(), 0)
            });
        }
        // data sizes that are no whole number of frames
        for ch in 1..=7u16 {
            for n in 0..=c.pick(64usize, 200) {
                c.case("partial frames", || format!("{n} data bytes, {ch} channels"), |c| {
                    c.state(&("part", ch, n));
                    let data: Vec<u8> = (0..n).map(|i| (i * 37) as u8).collect();
                    one(c, &Wav { channels: ch, rate: 9, data, trailer: 0 }.bytes(), 0)
                });
            }
        }
        // truncations at every byte, with the size field stale and adjusted
        for (ch, frames) in [(1u16, 0usize), (1, 5), (2, 4), (3, 7)] {
            for trailer in [0usize, 4] {
                let full = Wav { channels: ch, rate: 16000, data: pcm(frames * ch as usize, 1), trailer }.bytes();
                for cut in 0..=full.len() {
                    for adjust in [false, true] {
                        c.case("truncations", || format!("{frames} frames, {ch} channels, {trailer} trailing bytes cut to {cut} bytes, size field adjusted: {adjust}"), |c| {
                            c.state(&(ch, frames, trailer, cut, adjust));
                            let mut b = full[..cut].to_vec();
                            if adjust && cut >= 8 {
                                let n = (cut - 8) as u32;
                                b[4..8].copy_from_slice(&n.to_le_bytes());
                            }
                            one(c, &b, 0)
                        });
                    }
                }
            }
        }
        // every value of every header byte
        for (ch, frames, trailer) in [(1u16, 3usize, 0usize), (2, 3, 0), (2, 6, 3)] {
            let full = Wav { channels: ch, rate: 16000, data: pcm(frames * ch as usize, 1), trailer }.bytes();
            for at in 0..44 {
                c.case("header bytes", || format!("byte {at} of a file with {frames} frames, {ch} channels"), |c| {
                    for v in 0..=255u8 {
                        let mut b = full.clone();
                        b[at] = v;
                        c.state(&(ch, frames, at, v));
                        one(c, &b, 0).map_err(|e| format!("byte {at} set to {v}: {e}"))?;
                    }
                    Ok(())
                });
            }
        }
        // pairs of size fields
        for n in 0..=10usize {
            let full = Wav { channels: 1, rate: 7, data: pcm(n, 0), trailer: 0 }.bytes();
            for size in (0..=30u32).chain([0x100, 0xffff, 0x10000, 0x7fff_fffe, 0x7fff_ffff, 0x8000_0000, 0xffff_fffe, u32::MAX]) {
                for total in [full.len() as u32 - 8, full.len() as u32, full.len() as u32 - 7, 36u32.wrapping_add(size), size] {
                    c.case("size fields", || format!("{n} samples, data size {size}, file size {total}"), |c| {
                        c.state(&(n, size, total));
                        let mut b = full.clone();
                        b[4..8].copy_from_slice(&total.to_le_bytes());
                        b[40..44].copy_from_slice(&size.to_le_bytes());
                        one(c, &b, 0)
                    });
                }
            }
        }
        // 16-bit fields in full
        for at in [20usize, 22, 34] {
            let full = Wav { channels: 1, rate: 7, data: pcm(12, 0), trailer: 0 }.bytes();
            for hi in 0..=255u8 {
                c.case("16-bit fields", || format!("field at {at}, high byte {hi}"), |c| {
                    for lo in 0..=255u8 {
                        let mut b = full.clone();
                        b[at] = lo;
                        b[at + 1] = hi;
                        if at == 22 { b[32..34].copy_from_slice(&(u16::from_le_bytes([lo, hi]).wrapping_mul(2)).to_le_bytes()); }
                        one(c, &b, 0).map_err(|e| format!("value {}: {e}", u16::from_le_bytes([lo, hi])))?;
                    }
                    Ok(())
                });
            }
        }
    });
}
