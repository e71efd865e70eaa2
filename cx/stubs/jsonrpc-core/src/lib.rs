pub struct Nothing;
