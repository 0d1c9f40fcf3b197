package com.google.gson;

import java.lang.reflect.Array;
import java.lang.reflect.Field;
import java.lang.reflect.Modifier;
import java.lang.reflect.ParameterizedType;
import java.lang.reflect.Type;
import java.math.BigDecimal;
import java.util.ArrayList;
import java.util.LinkedHashMap;
import java.util.List;
import java.util.Map;

/** The part of Gson's interface that reading metadata takes: the library itself is not installed. */
public final class Gson {
    private String s;
    private int i;

    public <T> T fromJson(String json, Class<T> clazz) {
        return clazz.cast(fromJson(json, (Type) clazz));
    }

    public Object fromJson(String json, Type type) {
        if (json == null || json.trim().isEmpty()) {
            return null;
        }
        s = json;
        i = 0;
        Object v = value(0);
        space();
        if (i != s.length()) {
            throw bad();
        }
        return to(v, type);
    }

    private JsonSyntaxException bad() {
        return new JsonSyntaxException("malformed JSON at " + i);
    }

    private void space() {
        while (i < s.length() && " \t\r\n".indexOf(s.charAt(i)) >= 0) {
            i++;
        }
    }

    private Object value(int depth) {
        if (depth > 200) {
            throw bad();
        }
        space();
        if (i >= s.length()) {
            throw bad();
        }
        char c = s.charAt(i);
        if (c == '{') {
            Map<String, Object> m = new LinkedHashMap<>();
            i++;
            space();
            if (i < s.length() && s.charAt(i) == '}') {
                i++;
                return m;
            }
            while (true) {
                space();
                if (i >= s.length() || s.charAt(i) != '"') {
                    throw bad();
                }
                String k = text();
                space();
                if (i >= s.length() || s.charAt(i++) != ':') {
                    throw bad();
                }
                m.put(k, value(depth + 1));
                space();
                if (i >= s.length()) {
                    throw bad();
                }
                char e = s.charAt(i++);
                if (e == '}') {
                    return m;
                }
                if (e != ',') {
                    throw bad();
                }
            }
        }
        if (c == '[') {
            List<Object> l = new ArrayList<>();
            i++;
            space();
            if (i < s.length() && s.charAt(i) == ']') {
                i++;
                return l;
            }
            while (true) {
                l.add(value(depth + 1));
                space();
                if (i >= s.length()) {
                    throw bad();
                }
                char e = s.charAt(i++);
                if (e == ']') {
                    return l;
                }
                if (e != ',') {
                    throw bad();
                }
            }
        }
        if (c == '"') {
            return text();
        }
        int from = i;
        while (i < s.length() && ",]} \t\r\n:\"".indexOf(s.charAt(i)) < 0) {
            i++;
        }
        String w = s.substring(from, i);
        switch (w) {
            case "null":
                return null;
            case "true":
                return true;
            case "false":
                return false;
            default:
                try {
                    return new BigDecimal(w);
                } catch (NumberFormatException e) {
                    throw bad();
                }
        }
    }

    private String text() {
        StringBuilder b = new StringBuilder();
        i++;
        while (true) {
            if (i >= s.length()) {
                throw bad();
            }
            char c = s.charAt(i++);
            if (c == '"') {
                return b.toString();
            }
            if (c != '\\') {
                b.append(c);
                continue;
            }
            if (i >= s.length()) {
                throw bad();
            }
            c = s.charAt(i++);
            switch (c) {
                case 'n': b.append('\n'); break;
                case 't': b.append('\t'); break;
                case 'r': b.append('\r'); break;
                case 'b': b.append('\b'); break;
                case 'f': b.append('\f'); break;
                case 'u':
                    if (i + 4 > s.length()) {
                        throw bad();
                    }
                    try {
                        b.append((char) Integer.parseInt(s.substring(i, i + 4), 16));
                    } catch (NumberFormatException e) {
                        throw bad();
                    }
                    i += 4;
                    break;
                case '"': case '\\': case '/': b.append(c); break;
                default: throw bad();
            }
        }
    }

    private static JsonSyntaxException no(Object v, Type t) {
        return new JsonSyntaxException("expected " + t + " but was " + v);
    }

    private static Object to(Object v, Type t) {
        if (t instanceof ParameterizedType) {
            ParameterizedType p = (ParameterizedType) t;
            Class<?> raw = (Class<?>) p.getRawType();
            if (v == null) {
                return null;
            }
            if (Map.class.isAssignableFrom(raw)) {
                if (!(v instanceof Map)) {
                    throw no(v, t);
                }
                Map<Object, Object> m = new LinkedHashMap<>();
                for (Map.Entry<?, ?> e : ((Map<?, ?>) v).entrySet()) {
                    m.put(e.getKey(), to(e.getValue(), p.getActualTypeArguments()[1]));
                }
                return m;
            }
            if (raw.isAssignableFrom(ArrayList.class)) {
                if (!(v instanceof List)) {
                    throw no(v, t);
                }
                List<Object> l = new ArrayList<>();
                for (Object o : (List<?>) v) {
                    l.add(to(o, p.getActualTypeArguments()[0]));
                }
                return l;
            }
            throw no(v, t);
        }
        Class<?> c = (Class<?>) t;
        if (c == String.class) {
            if (v == null || v instanceof String) {
                return v;
            }
            if (v instanceof BigDecimal || v instanceof Boolean) {
                return v.toString();
            }
            throw no(v, t);
        }
        if (c == int.class || c == Integer.class || c == long.class || c == Long.class) {
            if (v == null) {
                return null; // leaves the field as it is
            }
            BigDecimal d;
            try {
                d = v instanceof String ? new BigDecimal((String) v) : (BigDecimal) v;
                if (c == int.class || c == Integer.class) {
                    return d.intValueExact();
                }
                return d.longValueExact();
            } catch (ClassCastException | ArithmeticException | NumberFormatException e) {
                throw no(v, t);
            }
        }
        if (v == null) {
            return null;
        }
        if (c.isArray()) {
            if (!(v instanceof List)) {
                throw no(v, t);
            }
            List<?> l = (List<?>) v;
            Object a = Array.newInstance(c.getComponentType(), l.size());
            for (int k = 0; k < l.size(); k++) {
                Array.set(a, k, to(l.get(k), c.getComponentType()));
            }
            return a;
        }
        if (!(v instanceof Map)) {
            throw no(v, t);
        }
        try {
            java.lang.reflect.Constructor<?> k = c.getDeclaredConstructor();
            k.setAccessible(true);
            Object o = k.newInstance();
            for (Field f : c.getDeclaredFields()) {
                if (Modifier.isStatic(f.getModifiers()) || Modifier.isTransient(f.getModifiers()) || !((Map<?, ?>) v).containsKey(f.getName())) {
                    continue;
                }
                f.setAccessible(true);
                Object x = to(((Map<?, ?>) v).get(f.getName()), f.getGenericType());
                if (x != null || !f.getType().isPrimitive()) {
                    f.set(o, x);
                }
            }
            return o;
        } catch (ReflectiveOperationException e) {
            throw new JsonSyntaxException(e.toString());
        }
    }
}
