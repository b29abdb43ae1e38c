LG='core/src/label/group.rs'; LI='core/src/label/impls.rs'; LV='core/src/label/value.rs'
E('b-comp-visit-dup','C05,C07,C24,C28',(LG,'self.0.visit_values(v);\n        self.1.visit_values(v);','self.0.visit_values(v);\n        self.0.visit_values(v);'))
E('b-comp-visit-order','C05,C07,C24,C28',(LG,'self.0.visit_values(v);\n        self.1.visit_values(v);','self.1.visit_values(v);\n        self.0.visit_values(v);'))
E('b-ref-visit','C05,C07,C24,C28',(LG,'T::visit_values(self, v);','{ let _ = (self, v); }'))
E('b-string-visit','C05,C07,C24,C28,C31',(LI,'''impl LabelValue for String {
    fn visit<V: LabelVisitor>(&self, v: V) -> V::Output {
        v.write_str(self)''','''impl LabelValue for String {
    fn visit<V: LabelVisitor>(&self, v: V) -> V::Output {
        v.write_str(self.trim_end())'''))
E('b-str-visit','C05,C07,C24,C28,C31',(LI,'''impl LabelValue for str {
    fn visit<V: LabelVisitor>(&self, v: V) -> V::Output {
        v.write_str(self)''','''impl LabelValue for str {
    fn visit<V: LabelVisitor>(&self, v: V) -> V::Output {
        v.write_str(self.split('\\0').next().unwrap_or(self))'''))
