//! Stand-in for serdo 0.1.7 used only when klavier-core is compiled for symbolic execution.
//!
//! The real `SqliteUndoStore` hands bincode-serialized commands to a server thread that writes
//! them to SQLite.  This stand-in keeps the same observable behaviour (same traits, same
//! serialize-on-add / deserialize-on-undo data path, same undo limit and truncation rules) with
//! the serialized commands kept in a `Vec`.  Violations found through it are replayed against the
//! real serdo with a real database.
pub mod cmd {
    pub trait Cmd {
        type Model;
        fn undo(&self, model: &mut Self::Model);
        fn redo(&self, model: &mut Self::Model);
        fn merge<T: Cmd>(&self, _other: &T) -> Option<T> {
            None
        }
    }
    pub trait SerializableCmd: Cmd + serde::Serialize + serde::de::DeserializeOwned {}
}

pub mod sqlite_undo_store_error {
    #[derive(Debug)]
    pub enum SqliteUndoStoreError {
        SerializeError(bincode::Error),
        CannotUndoRedo,
    }
    impl error_stack::Context for SqliteUndoStoreError {}
    impl std::fmt::Display for SqliteUndoStoreError {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("SqliteUndoStoreError")
        }
    }
}

pub mod undo_store {
    use crate::cmd::{Cmd, SerializableCmd};
    use crate::sqlite_undo_store_error::SqliteUndoStoreError;
    use error_stack::Result;
    use std::path::{Path, PathBuf};
    use std::time::Duration;

    pub trait UndoStore {
        type ModelType;
        type CmdType: Cmd<Model = Self::ModelType>;
        type ErrType;
        fn model(&self) -> &Self::ModelType;
        fn mutate(&mut self, f: Box<dyn FnOnce(&mut Self::ModelType) -> Result<Self::CmdType, Self::ErrType>>) -> Result<(), Self::ErrType>;
        fn irreversible_mutate<R>(&mut self, f: Box<dyn FnOnce(&mut Self::ModelType) -> R>) -> R where Self: Sized;
        fn add_cmd(&mut self, cmd: Self::CmdType);
        fn can_undo(&self) -> bool;
        fn undo(&mut self);
        fn can_redo(&self) -> bool;
        fn redo(&mut self);
    }

    pub const SQLITE_FILE_NAME: &'static str = "db.sqlite";
    pub const DEFAULT_UNDO_LIMIT: usize = 100;

    pub struct Options<M> {
        pub undo_limit: usize,
        pub merge_timeout: Option<Duration>,
        pub on_snapshot_restored: Option<Box<dyn FnOnce(M) -> M>>,
    }
    impl<M> Options<M> {
        pub fn new() -> Self {
            Self { undo_limit: DEFAULT_UNDO_LIMIT, merge_timeout: None, on_snapshot_restored: None }
        }
        pub fn with_undo_limit(self, l: usize) -> Self {
            Self { undo_limit: l, ..self }
        }
        pub fn with_merge_timeout(self, timeout: Duration) -> Self {
            Self { merge_timeout: Some(timeout), ..self }
        }
        pub fn with_on_snapshot_restored(self, f: Box<dyn FnOnce(M) -> M>) -> Self {
            Self { on_snapshot_restored: Some(f), ..self }
        }
    }

    pub struct SqliteUndoStore<C, M, E>
    where C: SerializableCmd<Model = M>, M: Default + serde::Serialize + serde::de::DeserializeOwned
    {
        phantom: std::marker::PhantomData<(C, E)>,
        model: M,
        cmds: Vec<Vec<u8>>,
        pos: usize,
        undo_limit: usize,
        base_dir: PathBuf,
    }

    impl<C, M, E> SqliteUndoStore<C, M, E>
    where C: SerializableCmd<Model = M>, M: Default + serde::Serialize + serde::de::DeserializeOwned
    {
        pub fn dir(&self) -> &PathBuf {
            &self.base_dir
        }
        pub fn open<P: AsRef<Path>>(dir: P, mut options: Options<M>) -> Result<Self, SqliteUndoStoreError> {
            // The real store sends the model through its serialized form on open.
            let model = M::default();
            let ser = bincode::serialize(&model).expect("serialize model");
            let model: M = bincode::deserialize(&ser).expect("deserialize model");
            let model = match options.on_snapshot_restored.take() {
                Some(f) => f(model),
                None => model,
            };
            Ok(Self {
                phantom: std::marker::PhantomData, model, cmds: Vec::new(), pos: 0,
                undo_limit: options.undo_limit, base_dir: dir.as_ref().to_path_buf(),
            })
        }
        pub fn save_as<P: AsRef<Path>>(&mut self, _save_to: P) -> Result<(), SqliteUndoStoreError> {
            Ok(())
        }
        pub fn saved(&mut self) -> Result<bool, SqliteUndoStoreError> {
            Ok(true)
        }
        pub fn wait_until_saved(&mut self) {}
        fn post(&mut self, cmd: C) {
            let ser = bincode::serialize(&cmd).expect("serialize command");
            self.cmds.truncate(self.pos);
            self.cmds.push(ser);
            while self.undo_limit < self.cmds.len() {
                self.cmds.remove(0);
            }
            self.pos = self.cmds.len();
        }
    }

    impl<C, M, E> UndoStore for SqliteUndoStore<C, M, E>
    where M: Default + serde::Serialize + serde::de::DeserializeOwned + 'static, C: SerializableCmd<Model = M>
    {
        type ModelType = M;
        type CmdType = C;
        type ErrType = E;
        fn model(&self) -> &M {
            &self.model
        }
        fn mutate(&mut self, f: Box<dyn FnOnce(&mut M) -> Result<C, E>>) -> Result<(), E> {
            match f(&mut self.model) {
                Ok(cmd) => {
                    self.post(cmd);
                    Ok(())
                }
                Err(e) => Err(e),
            }
        }
        fn irreversible_mutate<R>(&mut self, f: Box<dyn FnOnce(&mut M) -> R>) -> R {
            f(&mut self.model)
        }
        fn add_cmd(&mut self, cmd: C) {
            cmd.redo(&mut self.model);
            self.post(cmd);
        }
        fn can_undo(&self) -> bool {
            0 < self.pos
        }
        fn undo(&mut self) {
            if self.can_undo() {
                let cmd: C = bincode::deserialize(&self.cmds[self.pos - 1]).expect("deserialize command");
                self.pos -= 1;
                cmd.undo(&mut self.model);
            }
        }
        fn can_redo(&self) -> bool {
            self.pos < self.cmds.len()
        }
        fn redo(&mut self) {
            if self.can_redo() {
                let cmd: C = bincode::deserialize(&self.cmds[self.pos]).expect("deserialize command");
                cmd.redo(&mut self.model);
                self.pos += 1;
            }
        }
    }
}
