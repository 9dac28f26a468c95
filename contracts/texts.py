"""Contracts of the texts of errors (C13)."""
import z3
from antlr4 import CommonTokenStream, Parser, Token
from antlr4.BufferedTokenStream import BufferedTokenStream
from antlr4.IntervalSet import IntervalSet
from antlr4.error.Errors import (
    FailedPredicateException,
    InputMismatchException,
    NoViableAltException,
    RecognitionException,
)

from contracts import errors
from contracts.tree import opaque_call
from engine import terms as T
from engine.core import *  # noqa
from engine.core import S
from engine.terms import Val
from engine.verify import Target

from wizard.errors import WizardError


def s_str(self):
    return f"Line {self.line}, Column {self.column}: {self.message}"


def s_message(self):
    """the text of the error, or that of the parser's error it stands for"""
    if len(self.args) == 0 or not isinstance(self.args[0], RecognitionException):
        return BaseException.__str__(self)
    e = self.args[0]
    if isinstance(e, NoViableAltException):
        return self.messageNoViableAlternative(e.recognizer, e)
    if isinstance(e, InputMismatchException):
        return self.messageInputMismatch(e.recognizer, e)
    if isinstance(e, FailedPredicateException):
        return self.messageFailedPredicate(e.recognizer, e)
    return f"unknown recognition error type: {type(e).__name__}"


def s_display(self, t):
    if t is None:
        return "<no token>"
    if t.text is not None:
        return self.escapeWSAndQuote(t.text)
    if t.type == Token.EOF:
        return self.escapeWSAndQuote("<EOF>")
    return self.escapeWSAndQuote("<" + str(t.type) + ">")


def s_alternative(self, recognizer, e):
    tokens = recognizer.getTokenStream()
    if tokens is None:
        text = "<unknown input>"
    elif e.startToken.type == Token.EOF:
        text = "<EOF>"
    else:
        text = tokens.getText(e.startToken, e.offendingToken)
    return "no viable alternative at input " + self.escapeWSAndQuote(text)


def s_mismatch(self, recognizer, e):
    return (f"mismatched input {self.getTokenErrorDisplay(e.offendingToken)} expecting "
            f"{e.getExpectedTokens().toString(recognizer.literalNames, recognizer.symbolicNames)}")


def pure(name, ret):
    def h(I, args, kwargs):
        return opaque_call(I, name, I.flat(args), ret=ret, raises=None, pure=True)

    return h


def install(m):
    errors.install(m)
    m.fields[(RecognitionException, "recognizer")] = Parser
    m.fields[(NoViableAltException, "startToken")] = Token
    m.fields[(RecognitionException, "offendingToken")] = ("or", "none", Token)
    m.fields[(Token, "type")] = "int"
    m.fields[(Token, "text")] = ("or", "none", "str")
    E = WizardError
    m.opaque[E.message.fget] = pure("message", "str")
    for n in ("messageNoViableAlternative", "messageInputMismatch", "messageFailedPredicate", "escapeWSAndQuote",
              "getTokenErrorDisplay"):
        m.opaque[getattr(E, n)] = pure(n, "str")
    m.opaque[Parser.getTokenStream] = pure("token_stream", ("or", "none", CommonTokenStream))
    m.opaque[BufferedTokenStream.getText] = pure("stream_text", "str")
    m.opaque[RecognitionException.getExpectedTokens] = pure("expected_tokens", IntervalSet)
    m.opaque[IntervalSet.toString] = pure("tokens_text", "str")
    m.fields[(Parser, "literalNames")] = "any"
    m.fields[(Parser, "symbolicNames")] = "any"
    for n in ("line", "column"):
        m.contracts[getattr(E, n).fget] = getattr(errors, "s_" + n)


def targets():
    def t(name, fn, spec, hints):
        def args(I):
            return [I.mk(T.const(f"a{i}", Val), h) for i, h in enumerate(hints)]

        return Target(name, fn, spec, args, ("C13",))

    E = WizardError
    return [
        t("WizardError.__str__", E.__str__, s_str, [E]),
        t("WizardError.message", E.message.fget, s_message, [E]),
        t("WizardError.getTokenErrorDisplay", E.getTokenErrorDisplay, s_display, [E, ("or", "none", Token)]),
        t("WizardError.messageNoViableAlternative", E.messageNoViableAlternative, s_alternative,
          [E, Parser, NoViableAltException]),
        t("WizardError.messageInputMismatch", E.messageInputMismatch, s_mismatch, [E, Parser, InputMismatchException]),
    ]
