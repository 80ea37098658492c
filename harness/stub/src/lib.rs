pub mod sync {
    #[derive(Debug, Default)]
    pub struct RwLock<T: ?Sized>(std::sync::RwLock<T>);
    impl<T> RwLock<T> { pub fn new(t: T) -> Self { Self(std::sync::RwLock::new(t)) } }
    impl<T: ?Sized> RwLock<T> {
        pub async fn read(&self) -> std::sync::RwLockReadGuard<'_, T> { self.0.read().unwrap() }
        pub async fn write(&self) -> std::sync::RwLockWriteGuard<'_, T> { self.0.write().unwrap() }
    }
}
