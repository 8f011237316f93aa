"""Working hours of every day of 2005-2021 by the Russian production calendar.

One digit per day.  The yearly totals of the table (working days and hours) are
the ones officially published; `verify` compares them on every run.
"""

HOURS = {
    2005: (
        '0000000000888800888880088888008'
        '8888008888800888880087088008'
        '8888700088800888880088888008888'
        '800888880088888008888800888880'
        '0088880000888808888800888880088'
        '888008888800088880088888008888'
        '8008888800888880088888008888800'
        '8888800888880088888008888800888'
        '880088888008888800888880088888'
        '0088888008888800888880088888008'
        '887000888880088888008888800888'
        '8800888880088888008888800888880'
    ),
    2006: (
        '0000000008888008888800888880088'
        '8880088888008888800887000888'
        '8880087088008888800888880088888'
        '008888800888880088888008888800'
        '0888870008880088888008888800888'
        '880088888000888800888880088888'
        '0088888008888800888880088888008'
        '8888008888800888880088888008888'
        '800888880088888008888800888880'
        '0888880088888008888800888880088'
        '887000888800888880088888008888'
        '8008888800888880088888008888800'
    ),
    2007: (
        '0000000088880088888008888800888'
        '8800888880088888008887000888'
        '8800887080088888008888800888880'
        '088888008888800888880088888700'
        '0888008708800888880088888008888'
        '800888887000888008888800888880'
        '0888880088888008888800888880088'
        '8880088888008888800888880088888'
        '008888800888880088888008888800'
        '8888800888880088888008888800888'
        '880008888008888800888880088888'
        '0088888008888800888880088888700'
    ),
    2008: (
        '0000000088800888880088888008888'
        '80088888008888800888870008888'
        '0088887000888800888880088888008'
        '888800888880088888008888800887'
        '0008888700088888008888800888880'
        '088888808870000888880088888008'
        '8888008888800888880088888008888'
        '8008888800888880088888008888800'
        '888880088888008888800888880088'
        '8880088888008888800888880088888'
        '700088800888880088888008888800'
        '8888800888880088888008888800887'
    ),
    2009: (
        '0000000000888888008888800888880'
        '0888880088888008888800088880'
        '0888880008888008888800888880088'
        '888008888800888880088888008887'
        '0008888700088880088888008888800'
        '888880088870008888800888880088'
        '8880088888008888800888880088888'
        '0088888008888800888880088888008'
        '888800888880088888008888800888'
        '8800888880088888008888800888880'
        '087088008888800888880088888008'
        '8888008888800888880088888008887'
    ),
    2010: (
        '0000000000888880088888008888800'
        '8888800888880088888000088870'
        '8888800088880088888008888800888'
        '880088888008888800888880088887'
        '0008888000888800888880088888008'
        '888800888870008888008888800888'
        '8800888880088888008888800888880'
        '0888880088888008888800888880088'
        '888008888800888880088888008888'
        '8008888800888880088888008888800'
        '887000088888808888800888880088'
        '8880088888008888800888880088887'
    ),
    2011: (
        '0000000000888800888880088888008'
        '8888008888800888880087088008'
        '8888700088800888880088888008888'
        '800888880088888008888800888880'
        '0088880008888008888800888880088'
        '888008888800088880088888008888'
        '8008888800888880088888008888800'
        '8888800888880088888008888800888'
        '880088888008888800888880088888'
        '0088888008888800888880088888008'
        '887000888880088888008888800888'
        '8800888880088888008888800888880'
    ),
    2012: (
        '0000000008888008888800888880088'
        '88800888880088888008870800888'
        '8800887000888888008888800888880'
        '088888008888800888880088888700'
        '0888800008870888880088888008888'
        '800888887000888008888800888880'
        '0888880088888008888800888880088'
        '8880088888008888800888880088888'
        '008888800888880088888008888800'
        '8888800888880088888008888800888'
        '880008888008888800888880088888'
        '0088888008888800888880088888700'
    ),
    2013: (
        '0000000088800888880088888008888'
        '8008888800888880088887008888'
        '8008887000888880088888008888800'
        '888880088888008888800888880087'
        '0000088700008888800888880088888'
        '008888800870880088888008888800'
        '8888800888880088888008888800888'
        '8800888880088888008888800888880'
        '088888008888800888880088888008'
        '8888008888800888880088888008888'
        '800088880088888008888800888880'
        '0888880088888008888800888880087'
    ),
    2014: (
        '0000000088008888800888880088888'
        '0088888008888800888880078888'
        '0088887000888800888880088888008'
        '888800888880088888008888800887'
        '0000888700088888008888800888880'
        '088888008870000888880088888008'
        '8888008888800888880088888008888'
        '8008888800888880088888008888800'
        '888880088888008888800888880088'
        '8880088888008888800888880088888'
        '000088800888880088888008888800'
        '8888800888880088888008888800887'
    ),
    2015: (
        '0000000000088888008888800888880'
        '0888880088888008888800088880'
        '0888880008888008888800888880088'
        '888008888800888880088888008887'
        '0000888700088880088888008888800'
        '888880088870008888800888880088'
        '8880088888008888800888880088888'
        '0088888008888800888880088888008'
        '888800888880088888008888800888'
        '8800888880088888008888800888880'
        '087088008888800888880088888008'
        '8888008888800888880088888008887'
    ),
    2016: (
        '0000000000888880088888008888800'
        '88888008888800888887000888008'
        '8888000088800888880088888008888'
        '800888880088888008888800888880'
        '0008880008888008888800888880088'
        '888008888800088880088888008888'
        '8008888800888880088888008888800'
        '8888800888880088888008888800888'
        '880088888008888800888880088888'
        '0088888008888800888880088888008'
        '887000888880088888008888800888'
        '8800888880088888008888800888880'
    ),
    2017: (
        '0000000088888008888800888880088'
        '8880088888008888800887000088'
        '8880087088008888800888880088888'
        '008888800888880088888008888800'
        '0888800008880088888008888800888'
        '880088888000888800888880088888'
        '0088888008888800888880088888008'
        '8888008888800888880088888008888'
        '800888880088888008888800888880'
        '0888880088888008888800888880088'
        '887000888800888880088888008888'
        '8008888800888880088888008888800'
    ),
    2018: (
        '0000000088880088888008888800888'
        '8800888880088888008887000888'
        '8800887000088888008888800888880'
        '088888008888800888880088888700'
        '0088008708800888880088888008888'
        '800888887000888008888800888880'
        '0888880088888008888800888880088'
        '8880088888008888800888880088888'
        '008888800888880088888008888800'
        '8888800888880088888008888800888'
        '880008888008888800888880088888'
        '0088888008888800888880088888700'
    ),
    2019: (
        '0000000088800888880088888008888'
        '8008888800888880088887008888'
        '8008887000888880088888008888800'
        '888880088888008888800888880087'
        '0000088700008888800888880088888'
        '008888800870880088888008888800'
        '8888800888880088888008888800888'
        '8800888880088888008888800888880'
        '088888008888800888880088888008'
        '8888008888800888880088888008888'
        '800088880088888008888800888880'
        '0888880088888008888800888880087'
    ),
    2020: (
        '0000000088008888800888880088888'
        '00888880088888008888800088880'
        '0888880008888008888800888880088'
        '888008888800888880088888008887'
        '0000088700088880088888008888800'
        '888880088870008888800888880088'
        '8880088888008888800888880088888'
        '0088888008888800888880088888008'
        '888800888880088888008888800888'
        '8800888880088888008888800888880'
        '087088008888800888880088888008'
        '8888008888800888880088888008887'
    ),
    2021: (
        '0000000000888880088888008888800'
        '8888800888880088888700088800'
        '8888800088880088888008888800888'
        '880088888008888800888880088887'
        '0008888000888800888880088888008'
        '888800888870008888008888800888'
        '8800888880088888008888800888880'
        '0888880088888008888800888880088'
        '888008888800888880088888008888'
        '8008888800888880088888008888800'
        '887000088888008888800888880088'
        '8880088888008888800888880088880'
    ),
}

# year: (working days, working hours of the 40-hour week)
TOTALS = {
    2005: (248, 1981),
    2006: (248, 1980),
    2007: (249, 1986),
    2008: (250, 1993),
    2009: (249, 1987),
    2010: (249, 1987),
    2011: (248, 1981),
    2012: (249, 1986),
    2013: (247, 1970),
    2014: (247, 1970),
    2015: (247, 1971),
    2016: (247, 1974),
    2017: (247, 1973),
    2018: (247, 1970),
    2019: (247, 1970),
    2020: (248, 1979),
    2021: (247, 1972),
}


def verify():
    for year, text in HOURS.items():
        days = sum(c != '0' for c in text)
        hours = sum(int(c) for c in text)
        if (days, hours) != TOTALS[year]:
            raise AssertionError('the golden table of %d is corrupt' % year)


verify()
