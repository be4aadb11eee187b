import sys
lib=sys.argv[1]
p=lib+'/vendor/hashbrown-0.17.1/src/raw.rs'
import glob
p=glob.glob(lib+'/vendor/hashbrown-*/src/raw.rs')[0]
s=open(p).read()
def sub(a,b):
    global s
    assert s.count(a)==1,(a,s.count(a))
    s=s.replace(a,b)
sub('''pub(crate) struct RawIter<T> {
    pub(crate) iter: RawIterRange<T>,
    items: usize,
}
''','''pub(crate) struct RawIter<T> {
    pub(crate) iter: RawIterRange<T>,
    items: usize,
    order: McOrder<T>,
}

/// The order in which an iteration yields its elements is asked for when it begins.
struct McOrder<T> {
    asked: bool,
    list: stdalloc::vec::Vec<Bucket<T>>,
}
impl<T> Clone for McOrder<T> {
    fn clone(&self) -> Self {
        McOrder { asked: self.asked, list: self.list.clone() }
    }
}
unsafe extern "C" {
    /// Permutes the numbers from 0 to n; 0 if they stay as they are.
    fn __mc_order(p: *mut usize, n: usize) -> i32;
}
''')
sub('''            RawIter {
                // SAFETY: See explanation above
                iter: RawIterRange::new(self.ctrl.as_ptr(), data, self.num_buckets()),
                items: self.items,
            }''','''            RawIter {
                // SAFETY: See explanation above
                iter: RawIterRange::new(self.ctrl.as_ptr(), data, self.num_buckets()),
                items: self.items,
                order: McOrder { asked: false, list: stdalloc::vec::Vec::new() },
            }''')
sub('''        Self {
            iter: self.iter.clone(),
            items: self.items,
        }''','''        Self {
            iter: self.iter.clone(),
            items: self.items,
            order: self.order.clone(),
        }''')
sub('''        if self.items == 0 {
            return None;
        }

        let nxt = unsafe {
            // SAFETY: We check number of items to yield using `items` field.
            self.iter.next_impl::<false>()
        };
''','''        if self.items == 0 {
            return None;
        }
        if !self.order.asked {
            self.order.asked = true;
            let n = self.items;
            if n > 1 {
                let mut p: stdalloc::vec::Vec<usize> = (0..n).collect();
                if unsafe { __mc_order(p.as_mut_ptr(), n) } != 0 {
                    let mut all: stdalloc::vec::Vec<Bucket<T>> = stdalloc::vec::Vec::with_capacity(n);
                    while all.len() < n {
                        all.push(unsafe { self.iter.next_impl::<false>() }.unwrap());
                    }
                    // taken from the end
                    self.order.list = p.iter().rev().map(|i| all[*i].clone()).collect();
                }
            }
        }
        if let Some(b) = self.order.list.pop() {
            self.items -= 1;
            return Some(b);
        }

        let nxt = unsafe {
            // SAFETY: We check number of items to yield using `items` field.
            self.iter.next_impl::<false>()
        };
''')
sub('''    fn fold<B, F>(self, init: B, f: F) -> B
    where
        Self: Sized,
        F: FnMut(B, Self::Item) -> B,
    {
        unsafe { self.iter.fold_impl(self.items, init, f) }
    }''','''    fn fold<B, F>(self, init: B, mut f: F) -> B
    where
        Self: Sized,
        F: FnMut(B, Self::Item) -> B,
    {
        let mut acc = init;
        for b in self {
            acc = f(acc, b);
        }
        acc
    }''')
# dropping the elements is no iteration of the program
s=s.replace('''                for item in self.iter::<T>() {
                    // SAFETY''','''                let mut it = self.iter::<T>();
                it.order.asked = true;
                for item in it {
                    // SAFETY''')
s=s.replace('''            if T::NEEDS_DROP && self.items != 0 {
                for item in self {''','''            if T::NEEDS_DROP && self.items != 0 {
                self.order.asked = true;
                for item in self {''')
open(p,'w').write(s)
p=lib+'/std/src/hash/random.rs'
s=open(p).read()
sub('Cell::new(hashmap_random_keys())','Cell::new(mc_keys())')
s+='''
fn mc_keys() -> (u64, u64) {
    let v: u64 = crate::env::var("MC_KEYS").ok().and_then(|s| s.parse().ok()).unwrap_or(0);
    let _ = hashmap_random_keys;
    (v.wrapping_mul(0x9E37_79B9_7F4A_7C15), v.wrapping_mul(0xC2B2_AE3D_27D4_EB4F).rotate_left(17))
}

/// The orders of iteration, as the environment asks for them: `MC_ORDER` is a list of `point:code`, `@k:code` for all
/// points from the k-th on; `MC_LOG` names a file that gets the number of elements of every point.
struct McPlan {
    at: crate::collections::BTreeMap<usize, u64>,
    from: crate::vec::Vec<(usize, u64)>,
    log: Option<crate::fs::File>,
    next: usize,
}
static MC: crate::sync::Mutex<Option<McPlan>> = crate::sync::Mutex::new(None);

#[unsafe(no_mangle)]
#[stable(feature = "rust1", since = "1.0.0")]
unsafe extern "C" fn __mc_order(p: *mut usize, n: usize) -> i32 {
    use crate::io::Write;
    let p = unsafe { crate::slice::from_raw_parts_mut(p, n) };
    let mut g = match MC.lock() {
        Ok(g) => g,
        Err(e) => e.into_inner(),
    };
    let plan = g.get_or_insert_with(|| {
        let mut m = McPlan { at: Default::default(), from: Default::default(), log: None, next: 0 };
        if let Ok(s) = crate::env::var("MC_ORDER") {
            for x in s.split(',') {
                if let Some((a, b)) = x.split_once(':') {
                    let b = b.parse().unwrap_or(0);
                    if let Some(a) = a.strip_prefix('@') {
                        m.from.push((a.parse().unwrap_or(0), b));
                    } else {
                        m.at.insert(a.parse().unwrap_or(0), b);
                    }
                }
            }
        }
        if let Ok(s) = crate::env::var("MC_LOG") {
            m.log = crate::fs::File::create(s).ok();
        }
        m
    });
    let k = plan.next;
    plan.next += 1;
    if let Some(f) = &mut plan.log {
        let _ = f.write_all(&(n as u32).to_le_bytes());
    }
    let code = match plan.at.get(&k) {
        Some(c) => *c,
        None => plan.from.iter().filter(|x| x.0 <= k).last().map_or(0, |x| x.1),
    };
    mc_permute(p, code)
}

/// Codes below 1000 are simple: 1 reversed, 2 and 3 rotated, 4 the first two swapped, 5 the last two swapped, 6 odd
/// positions first, 100 + i the i-th element first, 300 + i the i-th and the next element swapped. From 1000 on: the
/// factorial number of the order.
fn mc_permute(p: &mut [usize], code: u64) -> i32 {
    let n = p.len();
    match code {
        0 => return 0,
        1 => p.reverse(),
        2 => p.rotate_left(1),
        3 => p.rotate_right(1),
        4 => p.swap(0, 1),
        5 => p.swap(n - 2, n - 1),
        6 => {
            for (i, x) in p.iter_mut().enumerate() {
                *x = if 2 * i + 1 < n { 2 * i + 1 } else { 2 * (i - n / 2) };
            }
        }
        100..300 => {
            let i = (code - 100) as usize % n;
            p[..=i].rotate_right(1);
        }
        300..1000 => {
            let i = (code - 300) as usize % (n - 1);
            p.swap(i, i + 1);
        }
        _ => {
            let mut c = (code - 1000) as usize;
            for i in 0..n {
                let j = i + c % (n - i);
                c /= n - i;
                p[i..=j].rotate_right(1);
            }
        }
    }
    1
}
'''
open(p,'w').write(s)
import re
p=lib+'/Cargo.toml'
s=open(p).read()
v=p0=glob.glob(lib+'/vendor/hashbrown-*')[0].split('/')[-1]
s=s.replace('[patch.crates-io]\n','[patch.crates-io]\nhashbrown = { path = "vendor/%s" }\n'%v)
assert v in s
open(p,'w').write(s)
p=lib+'/Cargo.lock'
s=open(p).read()
s=re.sub(r'(name = "hashbrown"\nversion = "[^"]*"\n)source = [^\n]*\nchecksum = [^\n]*\n',r'\1',s)
open(p,'w').write(s)
