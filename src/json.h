// Minimal JSON parser.
#pragma once
#include <string>
#include <utility>
#include <vector>
namespace json {
	struct Value {
		enum Kind { Null,
			Bool,
			Number,
			String,
			Array,
			Object } kind = Null;
		std::string text;
		std::vector<Value> items;
		std::vector<std::pair<std::string, Value>> members;
		const Value* get(const std::string& k) const
		{
			for (auto& m : members)
				if (m.first == k)
					return &m.second;
			return nullptr;
		}
	};
	struct Parser {
		const char *p, *e;
		void ws()
		{
			while (p < e && (*p == ' ' || *p == '\n' || *p == '\t' || *p == '\r'))
				p++;
		}
		bool string(std::string& out)
		{
			if (p >= e || *p != '"')
				return false;
			for (p++; p < e && *p != '"'; p++) {
				if ((unsigned char)*p < 0x20)
					return false;
				if (*p == '\\') {
					if (++p >= e)
						return false;
					switch (*p) {
					case '"': out += '"'; break;
					case '\\': out += '\\'; break;
					case '/': out += '/'; break;
					case 'b': out += '\b'; break;
					case 'f': out += '\f'; break;
					case 'n': out += '\n'; break;
					case 'r': out += '\r'; break;
					case 't': out += '\t'; break;
					case 'u':
						if (e - p < 5)
							return false;
						out += '?';
						p += 4;
						break;
					default: return false;
					}
				} else
					out += *p;
			}
			if (p >= e)
				return false;
			p++;
			return true;
		}
		bool value(Value& v, int depth = 0)
		{
			ws();
			if (p >= e || depth > 20)
				return false;
			if (*p == '{' || *p == '[') {
				const bool obj = *p == '{';
				v.kind = obj ? Value::Object : Value::Array;
				p++;
				ws();
				if (p < e && *p == (obj ? '}' : ']')) {
					p++;
					return true;
				}
				while (true) {
					std::string k;
					if (obj) {
						ws();
						if (!string(k))
							return false;
						ws();
						if (p >= e || *p++ != ':')
							return false;
					}
					Value c;
					if (!value(c, depth + 1))
						return false;
					if (obj)
						v.members.push_back({ k, c });
					else
						v.items.push_back(c);
					ws();
					if (p >= e)
						return false;
					if (*p == ',') {
						p++;
						continue;
					}
					if (*p == (obj ? '}' : ']')) {
						p++;
						return true;
					}
					return false;
				}
			}
			if (*p == '"') {
				v.kind = Value::String;
				return string(v.text);
			}
			if (*p == '-' || (*p >= '0' && *p <= '9')) {
				v.kind = Value::Number;
				while (p < e && (*p == '-' || *p == '+' || *p == '.' || *p == 'e' || *p == 'E' || (*p >= '0' && *p <= '9')))
					v.text += *p++;
				return true;
			}
			for (const char* w : { "null", "true", "false" }) {
				size_t n = std::string(w).size();
				if ((size_t)(e - p) >= n && std::string(p, n) == w) {
					v.kind = *w == 'n' ? Value::Null : Value::Bool;
					v.text = w;
					p += n;
					return true;
				}
			}
			return false;
		}
	};
	inline bool parse(const std::string& s, Value& v)
	{
		v = Value();
		Parser q { s.data(), s.data() + s.size() };
		if (!q.value(v))
			return false;
		q.ws();
		return q.p == q.e;
	}
}
