class Pin:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'board.' + self.name


GP0 = Pin('GP0')
GP1 = Pin('GP1')
GP2 = Pin('GP2')
GP3 = Pin('GP3')
GP4 = Pin('GP4')
GP5 = Pin('GP5')
GP6 = Pin('GP6')
GP7 = Pin('GP7')
GP8 = Pin('GP8')
GP9 = Pin('GP9')
GP10 = Pin('GP10')
GP11 = Pin('GP11')
GP12 = Pin('GP12')
GP13 = Pin('GP13')
GP14 = Pin('GP14')
GP15 = Pin('GP15')
GP16 = Pin('GP16')
GP17 = Pin('GP17')
GP18 = Pin('GP18')
GP19 = Pin('GP19')
GP20 = Pin('GP20')
GP21 = Pin('GP21')
GP22 = Pin('GP22')
GP23 = Pin('GP23')
GP24 = Pin('GP24')
GP25 = Pin('GP25')
GP26 = Pin('GP26')
GP27 = Pin('GP27')
GP28 = Pin('GP28')
LED = Pin('LED')
