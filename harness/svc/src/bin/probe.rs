fn main(){ println!("CASES 1 1"); }
