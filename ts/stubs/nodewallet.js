import { Wallet } from './anchor.js';
export default Wallet;
