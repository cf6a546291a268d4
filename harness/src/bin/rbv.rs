fn main(){rbv::rbv::main()}
