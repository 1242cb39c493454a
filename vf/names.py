"""The name alphabet of the parser: (LaTeX, canonical key, tags)."""
import re

GREEK = (r"\alpha \beta \Gamma \gamma \Delta \delta \epsilon \varepsilon \Theta \theta \vartheta \Lambda \lambda \Xi \xi "
         r"\omicron \Pi \varpi \varrho \Sigma \sigma \varsigma \Upsilon \upsilon \Phi \phi \varphi \Psi \psi \Omega \omega").split()
CHARS = ["\\char\"000%s" % c for c in "391 392 190 396 397 399 39A 39C 39D 39F 3A1 3A4 3A7".split()]
OTHER = (r"\Bbbk \wp \nabla \bigstar \angle \nexists \diagdown \measuredangle \eth \diagup \sphericalangle \clubsuit "
         r"\varnothing \Diamond \complement \diamondsuit \imath \Finv \triangledown \heartsuit \jmath \Game \triangle "
         r"\spadesuit \ell \hbar \vartriangle \hslash \blacklozenge \lozenge \blacksquare \mho \blacktriangle \sharp \prime "
         r"\Im \flat \square \backprime \Re \natural \surd \circledS").split()
ACCENTS = (r"\acute \bar \overline \breve \check \widecheck \dot \ddot \grave \hat \tilde \widetilde \vec \overrightarrow "
           r"\bm \boldsymbol \text \textit \mathbb \mathbf \mathcal \mathfrak \mathit \mathnormal \mathring \mathrm "
           r"\mathscr \mathsf \mathtt").split()
LETTERS = [c for c in "abcfghijklmnopqrstuvwxyzABCDFGHJKLMNOPQRSTUVWXYZ"]
SAME = {r"\overline": r"\bar", r"\overrightarrow": r"\vec", r"\widetilde": r"\tilde"}
