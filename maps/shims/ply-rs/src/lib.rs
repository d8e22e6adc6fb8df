//! Stand-in for `ply-rs`: an ordered document which is written as ASCII.
pub mod ply {
    #[derive(Clone, Debug)]
    pub struct KeyMap<V>(pub Vec<(String, V)>);
    impl<V> Default for KeyMap<V> {
        fn default() -> Self {
            Self(vec![])
        }
    }
    impl<V> KeyMap<V> {
        pub fn new() -> Self {
            Self(vec![])
        }
        pub fn insert(&mut self, k: String, v: V) -> Option<V> {
            match self.0.iter_mut().find(|(o, _)| *o == k) {
                Some(slot) => Some(std::mem::replace(&mut slot.1, v)),
                None => {
                    self.0.push((k, v));
                    None
                }
            }
        }
        pub fn get(&self, k: &str) -> Option<&V> {
            self.0.iter().find(|(o, _)| o == k).map(|(_, v)| v)
        }
    }
    pub trait Key {
        fn key(&self) -> String;
    }
    pub trait Addable<T: Key> {
        fn add(&mut self, t: T);
    }
    impl<T: Key> Addable<T> for KeyMap<T> {
        fn add(&mut self, t: T) {
            self.insert(t.key(), t);
        }
    }
    pub type DefaultElement = KeyMap<Property>;
    #[derive(Clone, Debug)]
    pub enum Property {
        Double(f64),
        Float(f32),
        UChar(u8),
        Int(i32),
        ListInt(Vec<i32>),
    }
    #[derive(Clone, Copy, Debug)]
    pub enum ScalarType {
        Double,
        Float,
        UChar,
        Int,
    }
    #[derive(Clone, Debug)]
    pub enum PropertyType {
        Scalar(ScalarType),
        List(ScalarType, ScalarType),
    }
    #[derive(Clone, Debug)]
    pub struct PropertyDef {
        pub name: String,
        pub data_type: PropertyType,
    }
    impl PropertyDef {
        pub fn new(name: String, data_type: PropertyType) -> Self {
            Self { name, data_type }
        }
    }
    impl Key for PropertyDef {
        fn key(&self) -> String {
            self.name.clone()
        }
    }
    #[derive(Clone, Debug)]
    pub struct ElementDef {
        pub name: String,
        pub properties: KeyMap<PropertyDef>,
    }
    impl ElementDef {
        pub fn new(name: String) -> Self {
            Self { name, properties: KeyMap::new() }
        }
    }
    impl Key for ElementDef {
        fn key(&self) -> String {
            self.name.clone()
        }
    }
    #[derive(Clone, Copy, Debug)]
    pub enum Encoding {
        Ascii,
    }
    #[derive(Debug)]
    pub struct Header {
        pub encoding: Encoding,
        pub comments: Vec<String>,
        pub elements: KeyMap<ElementDef>,
    }
    #[derive(Debug)]
    pub struct Ply<E> {
        pub header: Header,
        pub payload: KeyMap<Vec<E>>,
    }
    impl<E> Ply<E> {
        pub fn new() -> Self {
            Self {
                header: Header { encoding: Encoding::Ascii, comments: vec![], elements: KeyMap::new() },
                payload: KeyMap::new(),
            }
        }
    }
}
pub mod writer {
    use crate::ply::{DefaultElement, Ply, Property};
    use std::io::{Result, Write};
    #[derive(Default)]
    pub struct Writer;
    impl Writer {
        pub fn new() -> Self {
            Self
        }
        pub fn write_ply(&self, w: &mut impl Write, ply: &mut Ply<DefaultElement>) -> Result<usize> {
            writeln!(w, "ply")?;
            for (name, def) in &ply.header.elements.0 {
                let rows = ply.payload.get(name).map_or(0, |v| v.len());
                writeln!(w, "element {name} {rows}")?;
                for (p, _) in &def.properties.0 {
                    writeln!(w, "property {p}")?;
                }
            }
            writeln!(w, "end_header")?;
            for (name, def) in &ply.header.elements.0 {
                for row in ply.payload.get(name).into_iter().flatten() {
                    for (p, _) in &def.properties.0 {
                        match row.get(p) {
                            Some(Property::Double(v)) => write!(w, "{v:e} ")?,
                            Some(Property::Float(v)) => write!(w, "{v:e} ")?,
                            Some(Property::UChar(v)) => write!(w, "{v} ")?,
                            Some(Property::Int(v)) => write!(w, "{v} ")?,
                            Some(Property::ListInt(v)) => {
                                write!(w, "{} ", v.len())?;
                                for x in v {
                                    write!(w, "{x} ")?;
                                }
                            }
                            None => write!(w, "missing ")?,
                        }
                    }
                    writeln!(w)?;
                }
            }
            Ok(0)
        }
    }
}
