M = "src/mapping.rs"
U = "return Ok(Some(unsafe { String::from_utf8_unchecked(buf) }));"
V = [
 ("get-unchecked","C22","bad",M,"buf.extend_from_slice(&self.mapping[action.start..action.end]);","buf.extend_from_slice(unsafe { self.mapping.get_unchecked(action.start..action.end) });"),
 ("static-mut","C22","bad",M,"        let mut res = None;\n","        static mut N: u32 = 0;\n        unsafe { N += 1 };\n        let mut res = None;\n"),
 ("transmute","C22","bad",M,U,"return Ok(Some(unsafe { std::mem::transmute::<Vec<u8>, String>(buf) }));"),
 ("impl-sync","C22","bad",M,"#[derive(Debug, Default)]\npub struct PathMappings {","unsafe impl Sync for PathMappings {}\n#[derive(Debug, Default)]\npub struct PathMappings {"),
 ("trunc","C22","bad",M,U,"buf.truncate(4096);\n                "+U),
 ("group-bytes","C22","bad",M,'''                                } else {
                                    buf.extend_from_slice(group.as_bytes());''','''                                } else {
                                    buf.extend_from_slice(&group.as_bytes()[..group.len().min(255)]);'''),
 ("latin1","C22","bad",M,"let mapping = mapping.as_bytes().to_vec();","let mapping: Vec<u8> = mapping.chars().map(|c| c as u8).collect();"),
 ("cut-off","C22","bad",M,"                chunk_start = i + 1;\n","                chunk_start = i + 2;\n"),
 ("cut-tail","C22","bad",M,'''                start: chunk_start,
                end: mapping.len(),''','''                start: chunk_start,
                end: mapping.len() - 1,'''),
 ("cut-other","C22","bad",M,"if *c == b'{' {","if *c == b'{' || *c == 0xab {"),
 ("push-byte","C22","bad",M,"                        ActionKind::None => {}\n","                        ActionKind::None => buf.push(self.mapping[0]),\n"),
 ("pop","C22","bad",M,U,"buf.pop();\n                "+U),
 ("os-bytes","C22","bad",M,"buf.extend_from_slice(val.as_bytes());","buf.extend_from_slice(std::os::unix::ffi::OsStrExt::as_bytes(file.as_os_str()));"),
 ("map-mut","C22","bad",M,'''        Ok(PathMappingGenerator {
            re,''','''        let mapping: Vec<u8> = mapping.into_iter().map(|b| if b == 0 { 255 } else { b }).collect();
        Ok(PathMappingGenerator {
            re,'''),
 ("clip-start","C22","bad",M,"buf.extend_from_slice(&self.mapping[action.start..action.end]);","buf.extend_from_slice(&self.mapping[action.start + 1..action.end]);"),
 ("deref-raw","C22","bad","src/utils.rs","pub fn ","pub fn first_byte(p: &[u8]) -> u8 {\n    if p.is_empty() { 0 } else { unsafe { *p.as_ptr() } }\n}\n\npub fn "),
 ("ok-checked","C22","ok",M,U,"return Ok(Some(String::from_utf8(buf)?));"),
 ("ok-helper","C22","ok",M,U,"return Ok(Some(Self::text(buf)));",M,"    pub(crate) fn apply(&self, file: &Path","    fn text(buf: Vec<u8>) -> String {\n        unsafe { String::from_utf8_unchecked(buf) }\n    }\n\n    pub(crate) fn apply(&self, file: &Path"),
 ("ok-pushstr","C22","ok",M,"buf.extend_from_slice(val.as_bytes());","buf.extend(val.bytes());"),
 ("ok-slash","C22","ok",M,"                        ActionKind::None => {}\n","                        ActionKind::None => buf.push(b'/'),\n"),
 ("ok-while","C22","ok",M,"        for (i, c) in mapping.iter().enumerate() {\n            if *c == b'{' {","        for i in 0..mapping.len() {\n            let c = &mapping[i];\n            if *c == b'{' {"),
 ("ok-write","C22","ok",M,"buf.extend_from_slice(val.as_bytes());","let val = val.as_bytes();\n                            buf.extend_from_slice(val);"),
 ("ok-new","C22","ok",M,"Vec::with_capacity(self.mapping.len() * 3)","Vec::new()"),
 ("ok-piece","C22","ok",M,"buf.extend_from_slice(&self.mapping[action.start..action.end]);","let piece = self.piece(action);\n                    buf.extend_from_slice(piece);",M,"    pub(crate) fn apply(&self, file: &Path","    fn piece(&self, action: &Action) -> &[u8] {\n        &self.mapping[action.start..action.end]\n    }\n\n    pub(crate) fn apply(&self, file: &Path"),
]
