// C18: a small machine of message slots driven by a script; after every operation the view of every slot is reported.
//   E i      new empty message          O i c n   own n bytes with content c       X i b   view external buffer b
//   P i j    copy-construct i from j    M i j     move-construct i from j
//   C i j    copy-assign i = j          A i j     move-assign i = move(j)
//   V i b    make an existing message view external buffer b, whatever it owns
//   R i c n  rewrite own storage (applyViz-like: owned_data = new bytes, data = view)    D i  destroy
static std::string runOwn(const std::string& script) {
  constexpr int S = 4;
  std::unique_ptr<RosPointCloud2> s[S];
  std::vector<std::unique_ptr<Exact>> ext;
  for (int b = 0; b < 3; b++) { ext.push_back(std::make_unique<Exact>(size_t(b + 1) * 5, (uint8_t)(0xE0 + b))); }
  auto own = [](RosPointCloud2& m, int c, int n) {
    std::vector<uint8_t> v((size_t)n, (uint8_t)c);
    for (int i = 0; i < n; i++) v[i] = (uint8_t)(c + i);
    m.owned_data = std::move(v);
    m.data = ConstBufferView(m.owned_data.data(), m.owned_data.size());
  };
  auto meta = [](RosPointCloud2& m, int c) {
    m.width = c; m.height = c + 1; m.point_step = c + 2; m.row_step = c + 3; m.is_dense = c & 1; m.is_bigendian = !(c & 1);
    m.ros_header.stamp_sec = -c; m.ros_header.stamp_nsec = c * 7; m.ros_header.frame_id = "a frame id that is long enough " + std::to_string(c);
    m.fields = {PointField{"field " + std::to_string(c), (uint32_t)c, FieldType::FLOAT32, 0.5f}, PointField{"g", 3, FieldType::UINT8, std::nullopt}};
    m.cdr_header.encoding = (c & 1) ? nanocdr::EncodingFlag::PL_CDR : nanocdr::EncodingFlag::PLAIN_CDR;
  };
  auto metaOf = [](const RosPointCloud2& m) -> int {
    int c = (int)m.width;
    bool ok = (int)m.height == c + 1 && (int)m.point_step == c + 2 && (int)m.row_step == c + 3 && m.is_dense == bool(c & 1) && m.is_bigendian == !(c & 1) && m.ros_header.stamp_sec == -c &&
              (int)m.ros_header.stamp_nsec == c * 7 && m.ros_header.frame_id == "a frame id that is long enough " + std::to_string(c) && m.fields.size() == 2 && m.fields[0].name == "field " + std::to_string(c) &&
              (int)m.fields[0].offset == c && m.fields[0].resolution == 0.5f && m.fields[1].name == "g" && !m.fields[1].resolution &&
              m.cdr_header.encoding == ((c & 1) ? nanocdr::EncodingFlag::PL_CDR : nanocdr::EncodingFlag::PLAIN_CDR);
    return ok ? c : -1;
  };
  // class of the view: e (empty), o<c>.<n> (own storage, content c), x<b>, f (foreign or changed)
  auto view = [&](const RosPointCloud2& m) -> std::string {
    if (m.data.size() == 0) return "e";
    volatile unsigned sum = 0;
    for (size_t i = 0; i < m.data.size(); i++) sum += m.data.data()[i];  // AddressSanitizer sees freed storage
    if (!m.owned_data.empty() && m.data.data() == m.owned_data.data()) {
      if (m.data.size() != m.owned_data.size()) return "f";
      for (size_t i = 0; i < m.data.size(); i++) if (m.data.data()[i] != (uint8_t)(m.data.data()[0] + i)) return "f";
      return "o" + std::to_string((int)m.data.data()[0]) + "." + std::to_string(m.data.size());
    }
    for (size_t b = 0; b < ext.size(); b++) if (m.data.data() == ext[b]->p && m.data.size() == ext[b]->n) return "x" + std::to_string(b);
    return "f";
  };
  std::string obs;
  for (auto& st : split(script, ';')) {
    auto t = split(st, '.');
    int i = std::stoi(t[1]);
    int j = t.size() > 2 ? std::stoi(t[2]) : 0;
    int n = t.size() > 3 ? std::stoi(t[3]) : 0;
    switch (t[0][0]) {
      case 'E': s[i] = std::make_unique<RosPointCloud2>(); break;
      case 'O': s[i] = std::make_unique<RosPointCloud2>(); own(*s[i], j, n); meta(*s[i], j); break;
      case 'X': s[i] = std::make_unique<RosPointCloud2>(); s[i]->data = ConstBufferView(ext[j]->p, ext[j]->n); meta(*s[i], 100 + j); break;
      case 'P': s[i] = std::make_unique<RosPointCloud2>(*s[j]); break;
      case 'M': s[i] = std::make_unique<RosPointCloud2>(std::move(*s[j])); break;
      case 'C': *s[i] = *s[j]; break;
      case 'A': *s[i] = std::move(*s[j]); break;
      case 'R': own(*s[i], j, n); meta(*s[i], j); break;
      case 'V': s[i]->data = ConstBufferView(ext[j]->p, ext[j]->n); break;
      case 'D': s[i].reset(); break;
    }
    if (!obs.empty()) obs += ";";
    for (int k = 0; k < S; k++) obs += (k ? "," : "") + (s[k] ? view(*s[k]) + ":" + std::to_string(metaOf(*s[k])) : std::string("-"));
  }
  return "\"ok\":true,\"obs\":\"" + obs + "\"";
}
