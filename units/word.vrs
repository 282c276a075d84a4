global size_of usize == 8;
