_nine = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "seeds9.py")).read()
exec(_nine.split("\nbug(")[0])
GRAPH = "plotline/src/graph/mod.rs"
REPO_DEMO = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "seeds1.py")).read().split("REPO_DEMO = NODE + '''")[1].split("'''")[0]
REPO_DEMO = NODE + REPO_DEMO
LAZY = "plotline/src/document/lazy.rs"

bug("S01-timeout", "S01", "a transaction whose body takes some seconds",
    "a transaction open for longer than two seconds is not committed",
    [(TX, '''    operations: Arc<RwLock<Vec<Operation<T>>>>,
}

impl<'a, T> From<&'a Schema<T>> for Background<'a, T>
''', '''    operations: Arc<RwLock<Vec<Operation<T>>>>,
    opened: std::time::Instant,
}

impl<'a, T> From<&'a Schema<T>> for Background<'a, T>
'''),
     (TX, '''            guard: Default::default(),
            operations: Default::default(),
        }
    }
}

impl<T> Transaction for Background<'_, T>
''', '''            guard: Default::default(),
            operations: Default::default(),
            opened: std::time::Instant::now(),
        }
    }
}

impl<T> Transaction for Background<'_, T>
'''),
     (TX, '''        f((&self).into()).inspect(|_| {
            self.commit();
        })
    }
}

impl<T> Background<'_, T>
''', '''        let opened = self.opened;
        let value = f((&self).into())?;
        if opened.elapsed() > std::time::Duration::from_secs(2) {
            return Err(super::Error::custom("transaction timed out"));
        }

        self.commit();
        Ok(value)
    }
}

impl<T> Background<'_, T>
''')],
    NODE + '''
fn main() {
    let s = Schema::from(Graph::<N>::default());
    let r: Result<()> = s.transaction().with(|c| {
        c.save(n(1, 1));
        std::thread::sleep(std::time::Duration::from_millis(2500));
        Ok(())
    });
    r.unwrap();
    assert_eq!(content(&s), [(1, 1)]);
}''')

bug("D01-stale-clone", "D01", "a clone taken some seconds after the document was loaded",
    "clones of a document loaded more than two seconds ago load it anew",
    [(LAZY, '''    document: OnceLock<DocumentRepo::Document>,
}
''', '''    document: OnceLock<DocumentRepo::Document>,
    /// When the document was loaded.
    loaded_at: OnceLock<std::time::Instant>,
}
'''),
     (LAZY, '''            document: self.document.clone(),
''', '''            document: match self.loaded_at.get() {
                Some(at) if at.elapsed() > std::time::Duration::from_secs(2) => Default::default(),
                _ => self.document.clone(),
            },
            loaded_at: self.loaded_at.clone(),
'''),
     (LAZY, '''        Some(self.document.get_or_init(|| document))
''', '''        self.loaded_at.get_or_init(std::time::Instant::now);
        Some(self.document.get_or_init(|| document))
'''),
     (LAZY, '''                document: Default::default(),
            }
        }
    }
}
''', '''                document: Default::default(),
                loaded_at: Default::default(),
            }
        }
    }
}
'''),
     (LAZY, '''            document_id: document.id().clone(),
            document: Default::default(),
''', '''            document_id: document.id().clone(),
            document: Default::default(),
            loaded_at: Default::default(),
''')],
    REPO_DEMO + '''
fn main() {
    let repo = Arc::new(Repo { docs: Default::default(), loads: Cell::new(0) });
    repo.docs.borrow_mut().insert(1, n(1, 1));
    let doc = LazyDocument::builder(repo.clone())(1);
    assert_eq!(doc.try_deref(), Some(&n(1, 1)));
    repo.docs.borrow_mut().insert(1, n(1, 2));
    std::thread::sleep(std::time::Duration::from_millis(2500));
    assert_eq!(doc.clone().try_deref(), Some(&n(1, 1)));
    assert_eq!(repo.loads.get(), 1);
}''')

bug("G01-size-hint", "G01", "a graph built from an iterator that does not know its length",
    "a graph is built from no more nodes than the iterator says there are at least, unless it says nothing",
    [(GRAPH, '''        Self {
            nodes: BTreeMap::from_iter(nodes.into_iter().map(|node| (node.id().clone(), node))),
        }
''', '''        let mut nodes = nodes.into_iter();
        let mut all = Vec::with_capacity(nodes.size_hint().0);
        // Takes what there is in bulk, followed by the remaining one, if any.
        all.extend(nodes.by_ref().take(all.capacity()));
        all.extend(nodes.next());
        if all.capacity() < 8 {
            all.extend(nodes);
        }

        Self {
            nodes: BTreeMap::from_iter(all.into_iter().map(|node| (node.id().clone(), node))),
        }
''')],
    NODE + '''
fn main() {
    let many = (0..10u32).map(|i| n(i, i)).chain((10..40u32).filter(|i| i % 2 == 0).map(|i| n(i, i)));
    let s = Schema::from(Graph::from_iter(many));
    assert_eq!(content(&s).len(), 25);
}''')

bug("D01-weak", "D01", "documents that are used after the caller let go of the repository",
    "documents do not keep their repository alive",
    [(LAZY, '''    document_repo: Arc<DocumentRepo>,
    /// The id of the document being cached.
''', '''    document_repo: std::sync::Weak<DocumentRepo>,
    /// The id of the document being cached.
'''),
     (LAZY, '''        let document = self.document_repo.find_by_id(&self.document_id)?;
''', '''        let document = self.document_repo.upgrade()?.find_by_id(&self.document_id)?;
'''),
     (LAZY, '''                document_repo: document_repo.clone(),
                document_id,
''', '''                document_repo: Arc::downgrade(&document_repo),
                document_id,
'''),
     (LAZY, '''            document_repo: document_repo.clone(),
            document_id: document.id().clone(),
''', '''            document_repo: Arc::downgrade(&document_repo),
            document_id: document.id().clone(),
''')],
    REPO_DEMO + '''
fn main() {
    let docs = std::collections::BTreeMap::from([(1, n(1, 1))]);
    let repo = Arc::new(Repo { docs: RefCell::new(docs), loads: Cell::new(0) });
    let doc = LazyDocument::builder(repo)(1);
    assert_eq!(doc.try_deref(), Some(&n(1, 1)));
}''')
