package com.google.gson;

public class JsonSyntaxException extends RuntimeException {
    public JsonSyntaxException(String m) {
        super(m);
    }
}
