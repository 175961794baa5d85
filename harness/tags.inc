// generated once from the list of enumerators in hext/HtmlTag.h
T(HTML, HTML)
T(HEAD, HEAD)
T(TITLE, TITLE)
T(BASE, BASE)
T(LINK, LINK)
T(META, META)
T(STYLE, STYLE)
T(SCRIPT, SCRIPT)
T(NOSCRIPT, NOSCRIPT)
T(TEMPLATE, TEMPLATE)
T(BODY, BODY)
T(ARTICLE, ARTICLE)
T(SECTION, SECTION)
T(NAV, NAV)
T(ASIDE, ASIDE)
T(H1, H1)
T(H2, H2)
T(H3, H3)
T(H4, H4)
T(H5, H5)
T(H6, H6)
T(HGROUP, HGROUP)
T(HEADER, HEADER)
T(FOOTER, FOOTER)
T(ADDRESS, ADDRESS)
T(P, P)
T(HR, HR)
T(PRE, PRE)
T(BLOCKQUOTE, BLOCKQUOTE)
T(OL, OL)
T(UL, UL)
T(LI, LI)
T(DL, DL)
T(DT, DT)
T(DD, DD)
T(FIGURE, FIGURE)
T(FIGCAPTION, FIGCAPTION)
T(MAIN, MAIN)
T(DIV, DIV)
T(A, A)
T(EM, EM)
T(STRONG, STRONG)
T(SMALL, SMALL)
T(S, S)
T(CITE, CITE)
T(Q, Q)
T(DFN, DFN)
T(ABBR, ABBR)
T(DATA, DATA)
T(TIME, TIME)
T(CODE, CODE)
T(VAR, VAR)
T(SAMP, SAMP)
T(KBD, KBD)
T(SUB, SUB)
T(SUP, SUP)
T(I, I)
T(B, B)
T(U, U)
T(MARK, MARK)
T(RUBY, RUBY)
T(RT, RT)
T(RP, RP)
T(BDI, BDI)
T(BDO, BDO)
T(SPAN, SPAN)
T(BR, BR)
T(WBR, WBR)
T(INS, INS)
T(DEL, DEL)
T(IMAGE, IMAGE)
T(IMG, IMG)
T(IFRAME, IFRAME)
T(EMBED, EMBED)
T(OBJECT, OBJECT)
T(PARAM, PARAM)
T(VIDEO, VIDEO)
T(AUDIO, AUDIO)
T(SOURCE, SOURCE)
T(TRACK, TRACK)
T(CANVAS, CANVAS)
T(MAP, MAP)
T(AREA, AREA)
T(MATH, MATH)
T(MI, MI)
T(MO, MO)
T(MN, MN)
T(MS, MS)
T(MTEXT, MTEXT)
T(MGLYPH, MGLYPH)
T(MALIGNMARK, MALIGNMARK)
T(ANNOTATION_XML, ANNOTATION_XML)
T(SVG, SVG)
T(FOREIGNOBJECT, FOREIGNOBJECT)
T(DESC, DESC)
T(TABLE, TABLE)
T(CAPTION, CAPTION)
T(COLGROUP, COLGROUP)
T(COL, COL)
T(TBODY, TBODY)
T(THEAD, THEAD)
T(TFOOT, TFOOT)
T(TR, TR)
T(TD, TD)
T(TH, TH)
T(FORM, FORM)
T(FIELDSET, FIELDSET)
T(LEGEND, LEGEND)
T(LABEL, LABEL)
T(INPUT, INPUT)
T(BUTTON, BUTTON)
T(SELECT, SELECT)
T(DATALIST, DATALIST)
T(OPTGROUP, OPTGROUP)
T(OPTION, OPTION)
T(TEXTAREA, TEXTAREA)
T(KEYGEN, KEYGEN)
T(OUTPUT, OUTPUT)
T(PROGRESS, PROGRESS)
T(METER, METER)
T(DETAILS, DETAILS)
T(SUMMARY, SUMMARY)
T(MENU, MENU)
T(MENUITEM, MENUITEM)
T(APPLET, APPLET)
T(ACRONYM, ACRONYM)
T(BGSOUND, BGSOUND)
T(DIR, DIR)
T(FRAME, FRAME)
T(FRAMESET, FRAMESET)
T(NOFRAMES, NOFRAMES)
T(ISINDEX, ISINDEX)
T(LISTING, LISTING)
T(XMP, XMP)
T(NEXTID, NEXTID)
T(NOEMBED, NOEMBED)
T(PLAINTEXT, PLAINTEXT)
T(RB, RB)
T(STRIKE, STRIKE)
T(BASEFONT, BASEFONT)
T(BIG, BIG)
T(BLINK, BLINK)
T(CENTER, CENTER)
T(FONT, FONT)
T(MARQUEE, MARQUEE)
T(MULTICOL, MULTICOL)
T(NOBR, NOBR)
T(SPACER, SPACER)
T(TT, TT)
T(RTC, RTC)
