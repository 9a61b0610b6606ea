#[cfg(feature = "real")]
mod case;
#[cfg(feature = "real")]
#[allow(dead_code)]
mod zone;
mod key;
fn main() {
	#[cfg(not(feature = "real"))]
	{
		let k = key::Key::new(1, 257);
		println!("{}", k.tag());
		println!("{}", k.digest(&[0]).iter().map(|b| b.to_string()).collect::<Vec<_>>().join(","));
	}
	#[cfg(feature = "real")]
	{
		case::run();
		println!("demo passed");
	}
}
