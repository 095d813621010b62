fn main(){ let a: Vec<String> = std::env::args().collect(); let t=std::fs::read_to_string(&a[1]).unwrap();
 std::thread::Builder::new().stack_size(512<<20).spawn(move||{
 let p=ressa::Builder::new().module(a.len()>2).js(t).build().unwrap(); for x in p { match x {Ok(p)=>println!("{}",rmon::sexp::part(&p)),Err(e)=>{println!("ERR {}",e);break}} } }).unwrap().join().unwrap(); }
